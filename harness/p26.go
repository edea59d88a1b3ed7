//go:build P26

package main

import (
	"fmt"
	"sort"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P26", Level: "exploration", Min: 100000,
		Rule: "all sequences of up to 6 (thorough: 8) timestamps with distances around a small window, long random sequences, and trees of up to 2^63 entries with piecewise timestamps: what katie takes to be distinguished, as observed in the rightmost one, the rightmost before the last entry, the starting positions of owners, and the log entries that owner and contact monitoring, searches and updates look at, is compared with the recursive definition as the log grows; and real clients, servers and auditors are watched; an evaluation is one observation of a log, keyed by its shape and what was asked",
		Run:  runP26,
	})
}

func runP26(c *Ctx) {
	c.Each("exhaustive", 36, p26Exhaustive)
	c.Each("growth", c.N(160, 4000), p26Growth)
	c.Each("large", c.N(4000, 200000), p26Large)
	c.Each("parties", c.N(120, 5000), p26Parties)
}

// p26Lazy evaluates the definition where it matters.
type p26Lazy struct {
	ts  func(x uint64) uint64
	n   uint64
	rmw uint64
}

// rightmost returns the rightmost distinguished entry before `before`.
func (l p26Lazy) rightmost(before uint64) int64 {
	var rec func(base, size, left, right uint64) int64
	rec = func(base, size, left, right uint64) int64 {
		if size == 0 || right-left < l.rmw {
			return -1
		}
		x := rangeRoot(base, size)
		if x < before {
			if x+1 < before {
				if y := rec(x+1, base+size-x-1, l.ts(x), right); y >= 0 {
					return y
				}
			}
			return int64(x)
		}
		return rec(base, x-base, left, l.ts(x))
	}
	return rec(0, l.n, 0, l.ts(l.n-1))
}

func (l p26Lazy) distinguished(y uint64) bool {
	base, size, left, right := uint64(0), l.n, uint64(0), l.ts(l.n-1)
	for {
		if right-left < l.rmw {
			return false
		}
		x := rangeRoot(base, size)
		switch {
		case x == y:
			return true
		case y < x:
			size, right = x-base, l.ts(x)
		default:
			base, size, left = x+1, base+size-x-1, l.ts(x)
		}
	}
}

func p26Ptr(p *uint64) int64 {
	if p == nil {
		return -1
	}
	return int64(*p)
}

// p26Check checks everything about the distinguished entries of a log. It
// returns them, as katie sees them.
func p26Check(k *Case, s *simLog, deep bool) map[uint64]bool {
	n := uint64(len(s.ts))
	rmw := s.cfg.ReasonableMonitoringWindow
	want := refDistinguished(s.ts, rmw)
	wantSet := make(map[uint64]bool)
	for _, x := range want {
		wantSet[x] = true
	}
	ctx := func() string { return fmt.Sprintf("window %d, timestamps %v", rmw, s.ts) }

	got, err := algorithms.RightmostDistinguished(s.cfg, n, s.handle().provider())
	if err != nil || p26Ptr(got) != int64(refRightmostDLE(s.ts, rmw)) {
		k.Fail("rightmost distinguished log entry is %d (error: %v), expected %d; %s", p26Ptr(got), err, refRightmostDLE(s.ts, rmw), ctx())
	}
	got, err = algorithms.PreviousRightmost(s.cfg, n, s.handle().provider())
	if err != nil || p26Ptr(got) != int64(refPrevDLE(s.ts, rmw)) {
		k.Fail("previous rightmost distinguished log entry is %d (error: %v), expected %d; %s", p26Ptr(got), err, refPrevDLE(s.ts, rmw), ctx())
	}

	set := make(map[uint64]bool)
	for x := uint64(0); x < n; x++ {
		if !deep && n > 40 && !k.R.P(20/float64(n)) && !wantSet[x] {
			continue
		}
		// Owners may start exactly at distinguished log entries.
		h := s.handle()
		m := must(algorithms.NewMonitor(s.cfg, n, h.provider()))
		xs, err := m.InitEntries(x)
		if (err == nil) != wantSet[x] {
			k.Fail("log entry %d is taken to be distinguished: %v (error: %v), is: %v; %s", x, err == nil, err, wantSet[x], ctx())
		}
		if err == nil {
			set[x] = true
			k.Assert(xs[0] == x, "owner starts at %d instead of %d", xs[0], x)
			for i, y := range xs {
				k.Assert(wantSet[y] && y <= x, "owner looks at log entry %d when starting at %d; %s", y, x, ctx())
				k.Assert(i == 0 || y < xs[i-1], "owner looks at log entries %v in a wrong order", xs)
			}
		}
		// Contact monitoring ends at distinguished log entries.
		var look []simLadder
		done := wantSet[x]
		last := x
		if !done {
			for _, y := range bstRightAncestors(x, n) {
				look = append(look, simLadder{x: y})
				last = y
				if wantSet[y] {
					done = true
					break
				}
			}
		}
		h = s.handle()
		h.greatest = func(uint64) int64 { return 0 }
		m = must(algorithms.NewMonitor(s.cfg, n, h.provider()))
		m.Contact = &algorithms.ContactState{Ptrs: map[uint64]uint32{x: 0}}
		if err := m.ContactMonitor(); err != nil {
			k.Fail("contact monitoring from log entry %d failed: %v; %s", x, err, ctx())
		}
		k.Assert(p26Same(h.monitor, look), "contact monitoring from log entry %d looks at %v, expected %v; %s", x, h.monitor, look, ctx())
		k.Assert((m.Contact == nil) == done, "contact monitoring from log entry %d is done: %v, expected: %v; %s", x, m.Contact == nil, done, ctx())
		if m.Contact != nil {
			_, ok := m.Contact.Ptrs[last]
			k.Assert(ok && len(m.Contact.Ptrs) == 1, "contact monitoring from log entry %d continues at %v, not %d; %s", x, m.Contact.Ptrs, last, ctx())
		}
	}

	// Owner monitoring looks at all distinguished entries after the start.
	for i := -1; i < len(want); i++ {
		if i >= 0 && !deep && len(want) > 6 && !k.R.P(6/float64(len(want))) {
			continue
		}
		start := uint64(0)
		if i >= 0 {
			start = want[i]
		} else if len(want) == 0 || want[0] == 0 {
			continue
		}
		h := s.handle()
		m := must(algorithms.NewMonitor(s.cfg, n, h.provider()))
		m.Owner = &algorithms.OwnerState{Starting: start, VerAtStarting: -1}
		if err := m.OwnerMonitor(); err != nil {
			k.Fail("owner monitoring from log entry %d failed: %v; %s", start, err, ctx())
		}
		rest := want[i+1:]
		ok := len(h.search) == len(rest)
		for j := range h.search {
			ok = ok && h.search[j].x == rest[j]
		}
		k.Assert(ok, "owner monitoring from log entry %d looks at %v, expected %v; %s", start, h.search, rest, ctx())
		end := start
		if len(rest) > 0 {
			end = rest[len(rest)-1]
		}
		k.Assert(m.Owner.Starting == end, "owner monitoring ends at log entry %d, expected %d", m.Owner.Starting, end)
	}

	// The versions of an update are not looked for where monitoring will.
	first := uint64(0)
	if len(want) > 0 {
		first = want[0]
	}
	for pos := first + 1; pos < n; pos++ {
		if !deep && n > 40 && !k.R.P(8/float64(n)) && pos+3 < n {
			continue
		}
		h := s.handle()
		h.greatest = func(x uint64) int64 {
			if x >= pos {
				return 0
			}
			return -1
		}
		m := must(algorithms.NewMonitor(s.cfg, n, h.provider()))
		m.Owner = &algorithms.OwnerState{Starting: first, VerAtStarting: -1}
		if err := m.Update(pos, 1); err != nil {
			k.Fail("update in log entry %d: %v; %s", pos, err, ctx())
		}
		var look []uint64
		for _, x := range bstFrontier(pos) {
			if !wantSet[x] && x > first {
				look = append(look, x)
			}
		}
		if !wantSet[pos] {
			look = append(look, pos)
		}
		ok := len(h.search) == len(look)
		for j := range h.search {
			ok = ok && h.search[j].x == look[j]
		}
		k.Assert(ok, "update in log entry %d looks at %v, expected %v; %s", pos, h.search, look, ctx())
		k.Assert((m.Contact == nil) == wantSet[pos], "new version in log entry %d, distinguished: %v, will be monitored: %v; %s", pos, wantSet[pos], m.Contact != nil, ctx())
	}

	// Searches for the greatest version start at the rightmost one.
	h := s.handle()
	if _, err := algorithms.GreatestVersionSearch(s.cfg, 0, n, h.provider()); err != algorithms.ErrLabelNotFound {
		k.Fail("search in a log without versions: %v", err)
	}
	from := refRightmostDLE(s.ts, rmw)
	if from < 0 {
		from = int(rangeRoot(0, n))
	}
	k.Assert(h.search[0].x == uint64(from), "search for the greatest version starts at %d, expected %d; %s", h.search[0].x, from, ctx())
	return set
}

// p26Same ignores versions.
func p26Same(a, b []simLadder) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].x != b[i].x {
			return false
		}
	}
	return true
}

// p26Kept checks that what was distinguished remains so.
func p26Kept(k *Case, before, after map[uint64]bool, s *simLog) {
	for x := range before {
		k.Assert(after[x], "log entry %d is no longer distinguished; window %d, timestamps %v", x, s.cfg.ReasonableMonitoringWindow, s.ts)
	}
}

func p26Exhaustive(k *Case) {
	const w = 4
	steps := []uint64{0, 1, 2, 3, 4, 5}
	depth := k.N(6, 8)
	s := &simLog{k: k, cfg: simCfg(w, 0)}
	logs := 0
	var rec func(before map[uint64]bool)
	rec = func(before map[uint64]bool) {
		after := p26Check(k, s, true)
		p26Kept(k, before, after, s)
		logs++
		k.Eval("%v", s.ts)
		if len(s.ts) == depth {
			return
		}
		last := s.ts[len(s.ts)-1]
		for _, d := range steps {
			s.ts = append(s.ts, last+d)
			rec(after)
			s.ts = s.ts[:len(s.ts)-1]
		}
	}
	// The first two timestamps are given by the number of the case.
	s.ts = []uint64{steps[k.Idx/6]}
	before := p26Check(k, s, true)
	s.ts = append(s.ts, s.ts[0]+steps[k.Idx%6])
	rec(before)
	k.Count("logs", logs)
}

func p26Growth(k *Case) {
	r := k.R
	w := pick(r, uint64(1), 2, 3, 10, 100, 1000, 1<<40, 0)
	s := &simLog{k: k, cfg: simCfg(w, 0)}
	now := pick(r, uint64(0), 0, w/2, w, 3*w, 1<<40)
	if r.P(0.1) && w < 1<<30 {
		now = ^uint64(0) - uint64(r.Intn(int(300*w+1)))
	}
	var before map[uint64]bool
	style := r.Intn(4)
	for n := pick(r, 20, 60, r.Range(2, 300)); n > 0; n-- {
		var d uint64
		switch style {
		case 0:
			d = uint64(r.Intn(int(w/4 + 2)))
		case 1:
			d = pick(r, uint64(0), 0, 0, 1, w/2, w)
		case 2:
			d = pick(r, uint64(0), 1, w-min(w, 1), w, w+1, 2*w, w/3)
		case 3:
			if r.P(0.1) {
				d = pick(r, 3*w, 10*w, w)
			}
		}
		if now+d < now {
			d = ^uint64(0) - now
		}
		now += d
		s.ts = append(s.ts, now)
		after := p26Check(k, s, false)
		if before != nil {
			for x := range before {
				if after[x] {
					continue
				}
				m := must(algorithms.NewMonitor(s.cfg, uint64(len(s.ts)), s.handle().provider()))
				_, err := m.InitEntries(x)
				k.Assert(err == nil, "log entry %d is no longer distinguished: %v", x, err)
			}
		}
		before = after
		k.Eval("growth/%d/%d/%d/%d", w, style, len(s.ts), len(after))
		k.Count("logs", 1)
	}
}

// p26Large looks at trees too large to be made.
func p26Large(k *Case) {
	r := k.R
	w := pick(r, uint64(1), 2, 10, 1000, 1<<20, 1<<40, 1<<62)
	// Timestamps are linear between points.
	type point struct{ x, ts uint64 }
	bits := r.Range(2, 62)
	n := uint64(1)<<bits + pick(r, uint64(0), ^uint64(0), 1, uint64(r.Int63())%(uint64(1)<<bits))
	var points []point
	x, ts := uint64(0), pick(r, uint64(0), w, uint64(r.Int63n(1<<40)))
	for i := r.Range(1, 12); i > 0; i-- {
		points = append(points, point{x, ts})
		x += 1 + pick(r, uint64(r.Intn(10)), uint64(r.Int63())%n, uint64(r.Int63())%(n/8+1))
		d := pick(r, uint64(r.Intn(10)), w, w-1, w+1, uint64(r.Int63())>>uint(r.Intn(50)+2))
		ts += min(d, ^uint64(0)-ts)
	}
	points = append(points, point{x + 1, ts})
	at := func(x uint64) uint64 {
		i := sort.Search(len(points), func(i int) bool { return points[i].x > x }) - 1
		p := points[i]
		if i == len(points)-1 {
			return p.ts
		}
		q := points[i+1]
		per := (q.ts - p.ts) / (q.x - p.x)
		if per > 0 {
			return p.ts + (x-p.x)*per
		}
		return p.ts + (x-p.x)/((q.x-p.x)/(q.ts-p.ts+1)+1)
	}
	s := &simLog{k: k, cfg: simCfg(w, 0)}
	handle := func() *simHandle {
		h := s.handle()
		h.ts = at
		return h
	}
	for i := 0; i < 4; i++ {
		l := p26Lazy{at, n, w}
		got, err := algorithms.RightmostDistinguished(s.cfg, n, handle().provider())
		want := l.rightmost(n)
		if err != nil || p26Ptr(got) != want {
			k.Fail("rightmost distinguished log entry of %d is %d (error: %v), expected %d; window %d, timestamps %v", n, p26Ptr(got), err, want, w, points)
		}
		got, err = algorithms.PreviousRightmost(s.cfg, n, handle().provider())
		prev := l.rightmost(n - 1)
		if err != nil || p26Ptr(got) != prev {
			k.Fail("previous rightmost distinguished log entry of %d is %d (error: %v), expected %d; window %d, timestamps %v", n, p26Ptr(got), err, prev, w, points)
		}
		for j := 0; j < 6; j++ {
			x := uint64(r.Int63()) % n
			switch r.Intn(5) {
			case 0:
				x = n - 1 - min(n-1, uint64(r.Intn(4)))
			case 1:
				f := bstFrontier(n)
				x = f[r.Intn(len(f))]
			case 2:
				if want >= 0 {
					x = uint64(want)
				}
			case 3:
				p := points[r.Intn(len(points))]
				x = min(p.x, n-1)
			}
			m := must(algorithms.NewMonitor(s.cfg, n, handle().provider()))
			_, err := m.InitEntries(x)
			if (err == nil) != l.distinguished(x) {
				k.Fail("log entry %d of %d is taken to be distinguished: %v (%v), is: %v; window %d, timestamps %v", x, n, err == nil, err, l.distinguished(x), w, points)
			}
			k.Eval("large/%d/%d/%d/%v/%d", bits, i, w, err == nil, j)
		}
		if want >= 0 {
			k.Count("large logs with distinguished entries", 1)
		}
		k.Count("large logs", 1)
		n += pick(r, uint64(1), 1, 2, uint64(r.Intn(100)))
	}
}

// p26Parties watches what real clients take to be distinguished.
func p26Parties(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.Suite = 2
	if cfg.Mode == structs.ThirdPartyAuditing {
		cfg.AudGap = 0
	}
	w := newWorld(k, cfg)
	w.Grow(r.Range(1, 4))
	other := w.names[0]
	w.advance()
	w.MustMutate([]Add{{Label: other, Value: []byte("other")}}, nil)
	cl := w.newClient()
	for i := 0; i < 25; i++ {
		for j := r.Range(1, 3); j > 0; j-- {
			w.advance()
			w.MustMutate(w.genAdds(), nil)
			// What the new log entry will make of the rest is known to the server.
			prev := refPrevDLE(append(w.ts(), w.now), cfg.RMW)
			for _, l := range sortedKeys(w.cur) {
				if vs := w.cur[l]; len(vs) > 0 && l != string(other) && r.P(0.5) {
					w2 := w.Clone()
					err := w2.Mutate(nil, [][]byte{[]byte(l)})
					can := int(vs[len(vs)-1].Pos) <= prev
					k.Assert((err == nil) == can, "removal of a label last changed in log entry %d, when %d is the last distinguished one: %v", vs[len(vs)-1].Pos, prev, err)
					k.Eval("removal/%d/%d/%d/%v", w.n(), prev, vs[len(vs)-1].Pos, can)
				}
			}
		}
		if _, out := cl.Search(other, nil); !out.ok() {
			k.Fail("search: %v", out)
		}
		n := cl.size()
		dle := refRightmostDLE(w.ts()[:n], cfg.RMW)
		req, _, err := cl.c.OwnerInit([]byte("a label of nobody"))
		if dle < 0 {
			k.Assert(err != nil, "owner can start though no log entry is distinguished")
		} else if err != nil {
			k.Fail("owner can't start though log entry %d is distinguished: %v", dle, err)
		} else {
			k.Assert(req.Start == uint64(dle), "owner starts at log entry %d, the rightmost distinguished one is %d", req.Start, dle)
		}
		cl.st.cutoff = nil
		cl.c.Monitor()
		if cl.st.cutoff != nil {
			k.Assert(int64(*cl.st.cutoff) == int64(dle), "labels are to be monitored up to log entry %d, the rightmost distinguished one is %d", *cl.st.cutoff, dle)
		} else {
			k.Assert(dle < 0, "no labels are to be monitored, though log entry %d is distinguished", dle)
		}
		if dle >= 0 {
			k.Count("real clients with distinguished entries", 1)
		}
		k.Eval("parties/%d/%d/%d/%d", cfg.Mode, cfg.RMW, n, dle)
	}
}
