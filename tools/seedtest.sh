#!/bin/bash
# seedtest.sh ID [WORKTREE]: takes the uncommitted change in the scratch worktree
# of /repo (default /tmp/seed/wt) as the patch of a planted bug, if there is one,
# and confirms that it builds, passes the stable tests, and that the demo tells
# the two trees apart.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=/verif/seeded/$1; W=${2:-/tmp/seed/wt}
cd "$W" || exit 2
git checkout -q --detach "$(git -C /repo rev-parse HEAD)" || exit 2
if ! git diff --quiet; then git diff > "$D/patch.diff"; git checkout -q -- .; fi
X=$(mktemp -d); cp "$D"/* "$X"; rm -f "$X"/*.diff "$X"/meta.json
trap 'git -C "$W" checkout -q -- .; rm -rf "$X"' EXIT
bash "$X/demo.sh" > "$X/out0" 2>&1 || { echo "demo fails on the unchanged tree"; tail -20 "$X/out0"; exit 1; }
git apply "$D/patch.diff" || exit 1
go build ./... || exit 1
go test -json -vet=off -count=1 ./... > "$X/log" 2>&1
python3 /opt/vp/results.py "$X/res.json" "gojson:$X/log" > /dev/null
python3 - "$X/res.json" <<'P' || exit 1
import json,sys
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
p,q=passed(a),passed(b)
if p is None or q is None: print(list(a),list(b)); sys.exit(1)
if p-q: print('tests fail:',sorted(p-q)); sys.exit(1)
P
if bash "$X/demo.sh" > "$X/out1" 2>&1; then echo "demo passes with the patch"; tail -5 "$X/out1"; exit 1; fi
tail -6 "$X/out1"; echo "seed $1 ok"
