package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one refuted case.
type Violation struct {
	Case    string
	Idx     int
	Message string
	Trace   []string
	Stack   string
}

// Result is what one child observed.
type Result struct {
	Evaluations int
	Counters    map[string]int
	Distinct    []uint64
	Samples     []string
	Violations  []Violation
	Known       []string
	Errors      []string
	Done        bool
}

// Ctx is the state of a child process running (a shard of) one check.
type Ctx struct {
	Prop   string
	Tier   string
	Seed   int64
	shard  int
	shards int

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	caseNo   int

	raceGroup string

	current atomic.Pointer[running]
}

type running struct {
	name  string
	idx   int
	start time.Time
	cpu   time.Duration
}

// Thorough returns b in the thorough tier and a in the quick tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Case is a single generated case.
type Case struct {
	*Ctx
	Name  string
	Idx   int
	R     *Rand
	trace []string
}

type caseFailed struct{ msg string }
type caseSkipped struct{}

// Each runs cases 0..n-1 of the named group. Every case gets its own PRNG that
// depends on only the seed, the property, the group and the index.
var processStart = time.Now()

func (c *Ctx) Each(name string, n int, f func(k *Case)) {
	if *flagCase != "" && *flagCase != name {
		return
	} else if name == c.raceGroup && !raceBuild && os.Getenv("KCHECK_RACE") != "" {
		return // Run by the build with the race detector.
	}
	for i := 0; i < n; i++ {
		if *flagIdx >= 0 {
			if i != *flagIdx {
				continue
			}
		} else {
			c.caseNo++
			if c.caseNo%c.shards != c.shard {
				continue
			}
		}
		c.runCase(name, i, f)
		if v := len(c.res.Violations); v >= 5 || v > 0 && time.Since(processStart) > 3*time.Minute {
			return
		}
	}
}

func caseSeed(seed int64, prop, name string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, name, idx)
	return int64(h.Sum64())
}

func (c *Ctx) runCase(name string, idx int, f func(k *Case)) {
	k := &Case{Ctx: c, Name: name, Idx: idx, R: newRand(caseSeed(c.Seed, c.Prop, name, idx))}
	c.current.Store(&running{name, idx, time.Now(), cpuTime()})
	defer c.current.Store(nil)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case caseSkipped:
			return
		case caseFailed:
			c.violate(k, r.msg, "")
			return
		}
		stack := string(debug.Stack())
		if panicInKatie(stack) {
			c.violate(k, fmt.Sprintf("panic: %v", r), stack)
		} else {
			c.mu.Lock()
			c.res.Errors = append(c.res.Errors, fmt.Sprintf("harness panic in case %s/%d: %v\n%s", name, idx, r, stack))
			c.mu.Unlock()
		}
	}()
	if *flagV {
		fmt.Fprintf(os.Stderr, "case %s/%d\n", name, idx)
	}
	f(k)
}

func (c *Ctx) violate(k *Case, msg, stack string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Violations = append(c.res.Violations, Violation{k.Name, k.Idx, msg, k.trace, stack})
}

const katiePath = "github.com/Bren2010/katie/"

// panicInKatie decides whether the innermost frame that belongs to either
// katie or the harness belongs to katie.
func panicInKatie(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if strings.HasPrefix(l, "\t") || !seen {
			continue
		}
		if strings.HasPrefix(l, katiePath) {
			return true
		} else if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "kverif") {
			return false
		}
	}
	return false
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Fail reports that the property is refuted by this case.
func (k *Case) Fail(format string, args ...any) {
	panic(caseFailed{fmt.Sprintf(format, args...)})
}

// Skip ends the case without a verdict.
func (k *Case) Skip() { panic(caseSkipped{}) }

// Assert fails the case unless cond.
func (k *Case) Assert(cond bool, format string, args ...any) {
	if !cond {
		k.Fail(format, args...)
	}
}

// Logf adds a line to the trace of the case, which becomes part of the replay.
func (k *Case) Logf(format string, args ...any) {
	if len(k.trace) > 3000 {
		k.trace = append(k.trace[:100], k.trace[1500:]...)
	}
	k.trace = append(k.trace, fmt.Sprintf(format, args...))
	if *flagV {
		fmt.Fprintln(os.Stderr, "   ", k.trace[len(k.trace)-1])
	}
}

// Eval counts one evaluation of the oracle. If key is not empty, it identifies
// what was evaluated; distinct keys are counted.
func (c *Ctx) Eval(key string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations++
	if key == "" {
		return
	}
	if len(args) > 0 {
		key = fmt.Sprintf(key, args...)
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	c.distinct[h.Sum64()] = struct{}{}
}

// Count increments a named counter reported in the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Counters[name] += n
}

// Counter returns the present value of a counter in this shard.
func (c *Ctx) Counter(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.res.Counters[name]
}

// Sample records a case to be written out in the evidence.
func (k *Case) Sample(format string, args ...any) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.res.Samples) < 3 {
		k.res.Samples = append(k.res.Samples, fmt.Sprintf("%s/%d: ", k.Name, k.Idx)+fmt.Sprintf(format, args...))
	}
}

// Known reports that the known finding with the given id was reproduced.
func (k *Case) Known(id string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.res.Known = append(k.res.Known, id)
}

func childMain(chk *Check) {
	c := &Ctx{
		Prop: chk.ID, Tier: *flagTier, Seed: *flagSeed,
		shard: *flagChild, shards: *flagShards, raceGroup: chk.RaceGroup,
		distinct: make(map[uint64]struct{}),
	}
	c.res.Counters = make(map[string]int)
	go c.watchdog()
	chk.Run(c)
	c.res.Done = true
	c.write()
}

func (c *Ctx) write() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Distinct = c.res.Distinct[:0]
	for h := range c.distinct {
		c.res.Distinct = append(c.res.Distinct, h)
	}
	raw, err := json.Marshal(&c.res)
	if err == nil {
		tmp := *flagRes + ".tmp"
		if err = os.WriteFile(tmp, raw, 0644); err == nil {
			err = os.Rename(tmp, *flagRes)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "unable to write result:", err)
		os.Exit(3)
	}
}

const (
	hangCPU  = 90 * time.Second
	hangWall = 240 * time.Second
	hangMem  = 3 << 30
)

// memoryUsed returns the resident memory of the process.
func memoryUsed() int {
	var size, rss int
	raw, _ := os.ReadFile("/proc/self/statm")
	fmt.Sscan(string(raw), &size, &rss)
	return rss * os.Getpagesize()
}

// watchdog ends the process if a single case uses an absurd amount of CPU time
// (every case takes well under a second normally) or memory, or is blocked for
// minutes with katie's goroutines waiting on each other.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		cur := c.current.Load()
		if cur == nil {
			continue
		}
		cpu := cpuTime() - cur.cpu
		wall := time.Since(cur.start)
		mem := memoryUsed()
		if cpu < hangCPU && wall < hangWall && mem < hangMem {
			continue
		} else if c.current.Load() != cur {
			continue
		}
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		dump := string(buf)
		verdict, why := hangVerdict(dump, cpu >= hangCPU || mem >= hangMem)
		k := &Case{Ctx: c, Name: cur.name, Idx: cur.idx}
		if verdict {
			c.violate(k, fmt.Sprintf("case does not end: %s (cpu %v, wall %v, memory %d MB)", why, cpu, wall, mem>>20), dump)
		} else {
			c.mu.Lock()
			c.res.Errors = append(c.res.Errors, fmt.Sprintf("case %s/%d does not end: %s\n%s", cur.name, cur.idx, why, dump))
			c.mu.Unlock()
		}
		c.res.Done = true
		c.write()
		os.Exit(0)
	}
}

func hangVerdict(dump string, busy bool) (bool, string) {
	for _, g := range strings.Split(dump, "\n\n") {
		lines := strings.Split(g, "\n")
		if len(lines) < 2 {
			continue
		}
		head := lines[0]
		isKatie := false
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, katiePath) {
				isKatie = true
			}
		}
		if !isKatie {
			continue
		}
		if busy && (strings.Contains(head, "[running") || strings.Contains(head, "[runnable")) {
			return true, "katie code keeps running"
		}
		if !busy && strings.Contains(head, "minutes]") && (strings.Contains(head, "[chan ") ||
			strings.Contains(head, "[select") || strings.Contains(head, "[sync.") || strings.Contains(head, "[semacquire")) {
			return true, "katie code is blocked: " + head
		}
	}
	return false, "no katie goroutine is responsible"
}

func replayPath(prop, name string, idx int) string {
	return filepath.Join(*flagOut, "replays", fmt.Sprintf("%s-%s-%d.txt", prop, name, idx))
}

// Rand is a small wrapper for generating cases.
type Rand struct{ *rand.Rand }

func newRand(seed int64) *Rand { return &Rand{rand.New(rand.NewSource(seed))} }

// Range returns a number in [lo, hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P returns true with probability p.
func (r *Rand) P(p float64) bool { return r.Float64() < p }

func (r *Rand) Bytes(n int) []byte {
	out := make([]byte, n)
	r.Read(out)
	return out
}

func pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
