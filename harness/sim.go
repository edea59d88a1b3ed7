package main

import (
	"bytes"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// A simHandle lets the algorithms run on a log that consists of nothing but
// timestamps and greatest versions of one label, and records what they ask
// for. Ladders are produced as a server does and interpreted as a client does.

type simLadder struct {
	x   uint64
	ver uint32
	res int
}

type simHandle struct {
	algorithms.ProofHandle // not used

	k        *Case
	ts       func(x uint64) uint64
	greatest func(x uint64) int64
	all      bool // never omit a lookup
	tracker  math.VersionTracker
	stop     func(x uint64) bool

	asked     []uint64 // timestamps
	search    []simLadder
	monitor   []simLadder
	inclusion []simInclusion
	lookups   int
	omitted   int
}

type simInclusion struct {
	x    uint64
	vers []uint32
}

// simResult is the result of a lookup.
type simResult bool

func (s simResult) Inclusion() bool           { return bool(s) }
func (s simResult) Depth() int                { return 0 }
func (s simResult) Marshal(buf *bytes.Buffer) { panic("harness: not to be encoded") }

var simRoot = make([]byte, 32)

func cmpVer(g int64, ver uint32) int {
	switch {
	case g < int64(ver):
		return -1
	case g > int64(ver):
		return 1
	}
	return 0
}

func (h *simHandle) GetTimestamp(x uint64) (uint64, error) {
	h.asked = append(h.asked, x)
	return h.ts(x), nil
}

func (h *simHandle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	g := h.greatest(x)
	omit = omit && !h.all
	// What a server produces:
	ladder := []uint32{0}
	if g >= 0 {
		l, r := h.tracker.SearchMaps(x, omit)
		ladder = math.SearchBinaryLadder(ver, uint32(g), l, r)
	}
	proof := &prefix.PrefixProof{}
	for _, v := range ladder {
		proof.Results = append(proof.Results, simResult(int64(v) <= g))
	}
	h.lookups += len(ladder)
	// What a client makes of it:
	l, r := h.tracker.SearchMaps(x, omit)
	want := math.SearchBinaryLadder(ver, ver, l, r)
	h.omitted += len(math.SearchBinaryLadder(ver, ver, nil, nil)) - len(want)
	res, err := math.InterpretSearchLadder(want, ver, proof)
	if err != nil {
		h.k.Fail("ladder for version %d in a log entry where %d is the greatest can not be interpreted: %v", ver, g, err)
	} else if res != cmpVer(g, ver) {
		h.k.Fail("ladder for version %d in a log entry where %d is the greatest is interpreted as %d", ver, g, res)
	}
	for i := range proof.Results {
		if want[i] != ladder[i] {
			h.k.Fail("ladder for version %d in a log entry where %d is the greatest is %v, the client expects %v", ver, g, ladder, want)
		}
	}
	h.tracker.AddResults(x, omit, want, proof.Results)
	h.search = append(h.search, simLadder{x, ver, res})
	return simRoot, res, nil
}

func (h *simHandle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	h.monitor = append(h.monitor, simLadder{x: x, ver: ver})
	if g := h.greatest(x); g < int64(ver) {
		h.k.Fail("monitoring of version %d in log entry %d, where %d is the greatest", ver, x, g)
	}
	return simRoot, nil
}

func (h *simHandle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	h.inclusion = append(h.inclusion, simInclusion{x, append([]uint32(nil), vers...)})
	for _, v := range vers {
		if g := h.greatest(x); g < int64(v) {
			h.k.Fail("inclusion of version %d is asked for in log entry %d, where %d is the greatest", v, x, g)
		}
	}
	return simRoot, nil
}

func (h *simHandle) StopCondition(x uint64, ver int) bool { return h.stop != nil && h.stop(x) }
func (h *simHandle) Tracker() *math.VersionTracker        { return &h.tracker }

// simLog is a log of which only timestamps and the greatest versions of a label
// are known.
type simLog struct {
	k        *Case
	cfg      *structs.PublicConfig
	ts       []uint64
	greatest []int64
}

func (s *simLog) handle() *simHandle {
	return &simHandle{k: s.k, ts: func(x uint64) uint64 { return s.ts[x] }, greatest: func(x uint64) int64 {
		if s.greatest == nil {
			return -1
		}
		return s.greatest[x]
	}}
}

func (h *simHandle) provider() *algorithms.DataProvider {
	return algorithms.NewDataProvider(suiteByID(2), h)
}

// simCfg is a configuration without keys.
func simCfg(rmw, life uint64) *structs.PublicConfig {
	return &structs.PublicConfig{Config: structs.Config{Suite: suiteByID(2), Mode: structs.ContactMonitoring, ReasonableMonitoringWindow: rmw, MaximumLifetime: life, MaxAhead: ^uint64(0), MaxBehind: ^uint64(0)}}
}

// searchDef is the definition of what a search for a version finds.
type searchDef struct {
	n         uint64
	ts        func(x uint64) uint64
	greatest  func(x uint64) int64
	rmw, life uint64
}

type searchWant struct {
	kind     string // found, expired, absent
	terminal uint64
	exact    bool
	path     []uint64
	expired  int // expired log entries on the path
	early    int // those before the terminal one
}

func first(n uint64, f func(x uint64) bool) uint64 {
	lo, hi := uint64(0), n
	for lo < hi {
		mid := lo + (hi-lo)/2
		if f(mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

func (d *searchDef) expired(x uint64) bool {
	return d.life > 0 && d.ts(d.n-1)-d.ts(x) >= d.life
}

// distinguished tells whether a log entry is distinguished, given all of its
// ancestors.
func (d *searchDef) distinguished(x uint64) bool {
	left, right := uint64(0), d.ts(d.n-1)
	for _, y := range bstPath(x, d.n) {
		if right-left < d.rmw {
			return false
		}
		if y < x {
			left = d.ts(y)
		} else if y > x {
			right = d.ts(y)
		}
	}
	return true
}

func (d *searchDef) want(ver uint32) (w searchWant) {
	n := d.n
	if d.greatest(n-1) < int64(ver) {
		w.kind, w.path = "absent", bstFrontier(n)
		return
	}
	// The leftmost log entry that is not expired and has the version.
	m := max(first(n, func(x uint64) bool { return !d.expired(x) }), first(n, func(x uint64) bool { return d.greatest(x) >= int64(ver) }))
	w.terminal = m
	w.path = bstPath(m, n)
	if m > 0 {
		if below := bstPath(m-1, n); len(below) > len(w.path) {
			w.path = below // There may be more to the left of it.
		}
	}
	for i, x := range w.path {
		if x >= m && d.greatest(x) == int64(ver) {
			w.path, w.terminal, w.exact = w.path[:i+1], x, true
			break
		}
	}
	live := false
	for _, x := range w.path {
		if d.expired(x) {
			w.expired++
		} else if (x < w.terminal || w.exact && x == w.terminal) && d.distinguished(x) {
			live = true
		}
	}
	w.kind = "found"
	if w.expired > 0 && !live {
		w.kind = "expired"
	}
	return
}

func (s *simLog) def() *searchDef {
	h := s.handle()
	return &searchDef{n: uint64(len(s.ts)), ts: h.ts, greatest: h.greatest, rmw: s.cfg.ReasonableMonitoringWindow, life: s.cfg.MaximumLifetime}
}
