// Command kcheck decides the properties in /verif/properties.jsonl by running
// the real code of katie under generated workloads with monitors attached.
//
// It is started by run.sh. The parent process starts one child per shard,
// watches them, merges what they observed, writes the evidence file and gives
// the verdict. See DESIGN.md.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
)

// Check is the implementation of the check of one property.
type Check struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one non-trivial
	Run   func(c *Ctx)
	// Shards overrides the number of child processes.
	Shards int
	// RaceGroup is the group of cases that is run by a build with the race
	// detector, when the rest isn't.
	RaceGroup string
	// Min is the least number of evaluations without which a quick run is
	// inconclusive.
	Min         int
	Assumptions []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

var (
	flagProp   = flag.String("prop", "", "property to check")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagSeed   = flag.Int64("seed", 0, "seed (default: VERIF_SEED or 1)")
	flagOut    = flag.String("out", "/verif/evidence", "directory of the evidence file and replays")
	flagCase   = flag.String("case", "", "run only this group of cases")
	flagIdx    = flag.Int("idx", -1, "run only the case with this index")
	flagChild  = flag.Int("child", -1, "internal: shard number")
	flagShards = flag.Int("shards", 0, "number of shards")
	flagRes    = flag.String("res", "", "internal: result file of the child")
	flagFind   = flag.String("findings", "/verif/known_findings.txt", "list of known findings")
	flagV      = flag.Bool("v", false, "verbose")
)

func main() {
	flag.Parse()
	if *flagSeed == 0 {
		*flagSeed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				*flagSeed = v
			}
		}
	}
	if maybeHelper() {
		return
	}
	chk, ok := checks[*flagProp]
	if !ok {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "unknown property; known:", ids)
		os.Exit(2)
	}
	if *flagChild >= 0 {
		childMain(chk)
		return
	}
	os.Exit(parentMain(chk))
}
