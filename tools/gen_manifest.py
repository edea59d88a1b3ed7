#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in /verif/harness."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
TECH = json.load(open(f"{here}/tools/techniques.json"))
NA = {
    "P32": "cmd/katie-server/*.go carries `//go:build ignore` and imports gorilla/mux and a metrics client that are neither in go.mod nor in the module cache, so no execution of it can be produced and monitored here.",
}
hook = "2b11ce401a6db218aa2f1f96e5bf4d9d49f3f8c7"
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{here}/harness/{i.lower()}.go"
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        src = open(f).read()
        level = re.search(r'Level: "(\w+)"', src).group(1)
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t.get("technique", "runtime monitoring against a reference model"),
            "level": level,
            "level_note": t.get("note", "held on the executions counted in the evidence file; see DESIGN.md"),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "verif", "enable": "go build -tags verif (run.sh does this); lets the checks replace the system clock through algorithms.Clock", "source_commits": [hook]},
    "checks": checks,
    "not_applicable": na,
}, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
