package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

type childOut struct {
	res    *Result
	log    string
	exit   int
	err    error
	killed bool
}

func parentMain(chk *Check) int {
	start := time.Now()
	shards := *flagShards
	if shards == 0 {
		shards = chk.Shards
	}
	if shards == 0 {
		shards = min(runtime.NumCPU(), 8)
	}
	if *flagIdx >= 0 {
		shards = 1
	}
	os.MkdirAll(filepath.Join(*flagOut, "replays"), 0755)
	if old, err := filepath.Glob(filepath.Join(*flagOut, "replays", chk.ID+"-*.txt")); err == nil {
		for _, f := range old {
			os.Remove(f)
		}
	}
	tmp, err := os.MkdirTemp("", "kcheck-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	outs := make([]childOut, shards)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = runChild(chk, "", i, shards, tmp)
		}()
	}
	// The group of cases that needs the race detector has a build of its own.
	if raceExe := os.Getenv("KCHECK_RACE"); raceExe != "" && chk.RaceGroup != "" && (*flagCase == "" || *flagCase == chk.RaceGroup) {
		n := 2
		if *flagIdx >= 0 {
			n = 1
		}
		raced := make([]childOut, n)
		for i := range raced {
			wg.Add(1)
			go func() {
				defer wg.Done()
				raced[i] = runChild(chk, raceExe, i, n, tmp)
			}()
		}
		wg.Wait()
		outs = append(outs, raced...)
	}
	wg.Wait()

	// Merge.
	total := Result{Counters: make(map[string]int)}
	distinct := make(map[uint64]struct{})
	var problems []string
	for i, o := range outs {
		if o.res != nil {
			total.Evaluations += o.res.Evaluations
			for n, v := range o.res.Counters {
				total.Counters[n] += v
			}
			for _, h := range o.res.Distinct {
				distinct[h] = struct{}{}
			}
			total.Samples = append(total.Samples, o.res.Samples...)
			total.Violations = append(total.Violations, o.res.Violations...)
			total.Known = append(total.Known, o.res.Known...)
			problems = append(problems, o.res.Errors...)
		}
		if v := crashViolation(&o, i); v != nil {
			total.Violations = append(total.Violations, *v)
		} else if o.res == nil || !o.res.Done {
			problems = append(problems, fmt.Sprintf("shard %d ended without a result (exit %d, %v):\n%s", i, o.exit, o.err, tail(o.log, 6000)))
		}
	}

	// Known findings.
	known, err := loadFindings(*flagFind, chk.ID)
	if err != nil {
		problems = append(problems, err.Error())
	}
	reproduced := make(map[string]bool)
	for _, id := range total.Known {
		if _, ok := known[id]; ok {
			reproduced[id] = true
		} else {
			total.Violations = append(total.Violations, Violation{Case: "known", Message: "finding that is not listed: " + id})
		}
	}
	var ids []string
	for id := range reproduced {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", chk.ID, id, known[id])
	}

	sort.SliceStable(total.Violations, func(i, j int) bool {
		a, b := total.Violations[i], total.Violations[j]
		if a.Case != b.Case {
			return a.Case < b.Case
		}
		return a.Idx < b.Idx
	})
	if len(total.Samples) > 8 {
		total.Samples = total.Samples[:8]
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(distinct),
		"rule":                chk.Rule,
		"samples":             total.Samples,
		"observed":            total.Counters,
		"shards":              shards,
	}
	ev := evidence{
		Property: chk.ID, Tier: *flagTier, Seed: *flagSeed, Level: chk.Level,
		Coverage: cov, Assumptions: chk.Assumptions,
		WallS: time.Since(start).Seconds(), Violations: len(total.Violations),
	}
	raw, _ := json.MarshalIndent(&ev, "", "  ")
	if err := os.WriteFile(filepath.Join(*flagOut, chk.ID+".json"), append(raw, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if len(total.Violations) > 0 {
		var first string
		for i, v := range total.Violations {
			path := replayPath(chk.ID, v.Case, v.Idx)
			var b strings.Builder
			fmt.Fprintf(&b, "property %s is violated\nreplay: cd /verif && VERIF_SEED=%d ./run.sh %s %s -case %s -idx %d -v\n\n%s\n\n", chk.ID, *flagSeed, chk.ID, *flagTier, v.Case, v.Idx, v.Message)
			for _, l := range v.Trace {
				b.WriteString(l + "\n")
			}
			b.WriteString("\n" + v.Stack)
			os.WriteFile(path, []byte(b.String()), 0644)
			if i == 0 {
				first = path
			}
			if i < 5 {
				fmt.Printf("  %s/%d: %s\n", v.Case, v.Idx, tail(v.Message, 1500))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, first)
		return 1
	}
	if len(problems) > 0 {
		for i, p := range problems {
			if i < 2 {
				fmt.Fprintln(os.Stderr, "ERROR:", tail(p, 6000))
			}
		}
		fmt.Fprintf(os.Stderr, "%d errors\n", len(problems))
		return 2
	}
	if *flagIdx < 0 && *flagCase == "" && total.Evaluations < chk.Min {
		fmt.Fprintf(os.Stderr, "ERROR: inconclusive: only %d evaluations\n", total.Evaluations)
		return 2
	}
	fmt.Printf("%s: held on %d evaluations (%d distinct) in %.1fs\n", chk.ID, total.Evaluations, len(distinct), time.Since(start).Seconds())
	var names []string
	for n := range total.Counters {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Printf("  %s: %d\n", n, total.Counters[n])
	}
	return 0
}

// runChild runs a shard. If raceExe is given, it's a shard of the group of cases
// that needs the race detector.
func runChild(chk *Check, raceExe string, i, shards int, tmp string) childOut {
	var o childOut
	name, group := fmt.Sprint(i), *flagCase
	if raceExe != "" {
		name, group = fmt.Sprintf("race%d", i), chk.RaceGroup
	}
	res := filepath.Join(tmp, "res"+name)
	logPath := filepath.Join(tmp, "log"+name)
	logFile, err := os.Create(logPath)
	if err != nil {
		o.err = err
		return o
	}
	args := []string{"-prop", chk.ID, "-tier", *flagTier, "-seed", fmt.Sprint(*flagSeed),
		"-child", fmt.Sprint(i), "-shards", fmt.Sprint(shards), "-res", res,
		"-case", group, "-idx", fmt.Sprint(*flagIdx), "-out", *flagOut}
	if *flagV {
		args = append(args, "-v")
	}
	self, err := os.Executable()
	if err != nil {
		o.err = err
		return o
	}
	if raceExe != "" {
		self = raceExe
	}
	cmd := exec.Command(self, args...)
	procs := max(2, 16/shards)
	cmd.Env = append(os.Environ(),
		"GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=66",
		"KCHECK_TMP="+tmp, fmt.Sprintf("GOMAXPROCS=%d", procs), "GOMEMLIMIT=3GiB")
	cmd.Stdout = logFile
	cmd.Stderr = logFile
	if *flagV {
		cmd.Stderr = os.Stderr
	}
	o.err = cmd.Run()
	logFile.Close()
	o.exit = cmd.ProcessState.ExitCode()
	if f, err := os.Open(logPath); err == nil {
		o.log = readAtMost(f, 4<<20)
		f.Close()
	}
	if raw, err := os.ReadFile(res); err == nil {
		var r Result
		if json.Unmarshal(raw, &r) == nil {
			o.res = &r
		}
	}
	return o
}

func readAtMost(f *os.File, n int) string {
	buf := make([]byte, n)
	m, _ := bufio.NewReaderSize(f, n).Read(buf)
	return string(buf[:m])
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// crashViolation decides if a child that did not end normally, or printed a
// race report, shows a violation.
func crashViolation(o *childOut, shard int) *Violation {
	if i := strings.Index(o.log, "WARNING: DATA RACE"); i >= 0 {
		rep := o.log[i:]
		if j := strings.Index(rep, "=================="); j > 0 {
			rep = rep[:j]
		}
		if strings.Contains(rep, katiePath) {
			return &Violation{Case: "race", Idx: shard, Message: "data race in katie", Stack: tail(o.log[i:], 60000)}
		}
		o.err = fmt.Errorf("data race in the harness")
		if o.res != nil {
			o.res.Done = false
		}
		return nil
	}
	if o.res != nil && o.res.Done {
		return nil
	}
	// A panic in a goroutine that katie started, or a fatal runtime error.
	for _, marker := range []string{"panic: ", "fatal error: "} {
		i := strings.Index(o.log, marker)
		if i < 0 {
			continue
		}
		dump := o.log[i:]
		first := dump
		if j := strings.Index(dump, "\ngoroutine "); j >= 0 {
			rest := dump[j+1:]
			if e := strings.Index(rest, "\n\n"); e >= 0 {
				rest = rest[:e]
			}
			first = rest
		}
		for _, l := range strings.Split(first, "\n") {
			if strings.HasPrefix(l, katiePath) {
				msg, _, _ := strings.Cut(dump, "\n")
				return &Violation{Case: "crash", Idx: shard, Message: "the process died: " + msg, Stack: tail(dump, 60000)}
			} else if strings.HasPrefix(l, "main.") {
				return nil
			}
		}
	}
	return nil
}

// loadFindings reads the listed findings of a property: lines
// "finding: property=<id> <name> <description>". Lines "fixed: ..." suppress
// nothing.
func loadFindings(path, prop string) (map[string]string, error) {
	out := make(map[string]string)
	raw, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return out, nil
	} else if err != nil {
		return nil, err
	}
	for _, line := range strings.Split(string(raw), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property="+prop+" ")
		if !ok {
			continue
		}
		name, desc, _ := strings.Cut(rest, " ")
		out[name] = desc
	}
	return out, nil
}
