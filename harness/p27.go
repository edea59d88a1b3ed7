//go:build P27

package main

import (
	"fmt"
	"slices"
	"sort"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
)

func init() {
	register(&Check{
		ID: "P27", Level: "exploration", Min: 100000,
		Rule: "every node of all trees of up to 300 (thorough: 2000) entries and of random and extreme larger ones up to 2^63, all pairs of tree sizes up to 130, all pairs of target and greatest version up to 300 and random and extreme ones up to 2^32-1, all results of lookups for small targets, and searches over all logs of up to 5 (thorough: 7) entries with few versions and over large random ones, with and without omitted lookups; compared with the definitions; an evaluation is one function result or search, keyed by its arguments",
		Run:  runP27,
	})
}

func runP27(c *Ctx) {
	c.Each("nodes", c.N(300, 2000), p27Nodes)
	c.Each("large", c.N(3000, 200000), p27Large)
	c.Each("update view", c.N(130, 400), p27UpdateViews)
	c.Each("ladders", c.N(301, 1500), p27Ladders)
	c.Each("large ladders", c.N(3000, 200000), p27LargeLadders)
	c.Each("interpretation", c.N(40, 260), p27Interpretation)
	c.Each("tracker", c.N(1000, 50000), p27Tracker)
	c.Each("omission", 16, p27Omission)
	c.Each("large omission", c.N(3000, 200000), p27LargeOmission)
}

// p27Node checks everything about a node of a tree.
func p27Node(k *Case, x, n uint64, path []uint64) {
	at := func() string { return fmt.Sprintf("of log entry %d of %d", x, n) }
	// The children are the roots of what is to its left and to its right.
	base, end := uint64(0), n
	var left, right []uint64 // ancestors, nearest first
	for i := len(path) - 2; i >= 0; i-- {
		if path[i] < x {
			if len(left) == 0 {
				base = path[i] + 1
			}
			left = append(left, path[i])
		} else {
			if len(right) == 0 {
				end = path[i]
			}
			right = append(right, path[i])
		}
	}
	k.Assert(math.IsLeaf(x) == (base == x), "leaf status %s is %v", at(), math.IsLeaf(x))
	if base < x {
		want := rangeRoot(base, x-base)
		k.Assert(math.Left(x) == want, "left child %s is %d, expected %d", at(), math.Left(x), want)
	}
	if x+1 < end {
		want := rangeRoot(x+1, end-x-1)
		k.Assert(math.Right(x, n) == want, "right child %s is %d, expected %d", at(), math.Right(x, n), want)
	}
	if len(path) > 1 {
		want := path[len(path)-2]
		k.Assert(math.Parent(x, n) == want, "parent %s is %d, expected %d", at(), math.Parent(x, n), want)
	}
	if got := math.LeftDirectPath(x); !slices.Equal(got, left) && len(got)+len(left) > 0 {
		k.Fail("direct path to the left %s is %v, expected %v", at(), got, left)
	}
	if got := math.RightDirectPath(x, n); !slices.Equal(got, right) && len(got)+len(right) > 0 {
		k.Fail("direct path to the right %s is %v, expected %v", at(), got, right)
	}
}

func p27Tree(k *Case, n uint64) {
	k.Assert(math.Root(n) == rangeRoot(0, n), "root of a tree of %d entries is %d, expected %d", n, math.Root(n), rangeRoot(0, n))
	if got, want := math.Frontier(n), bstFrontier(n); !slices.Equal(got, want) {
		k.Fail("frontier of a tree of %d entries is %v, expected %v", n, got, want)
	}
}

func p27Nodes(k *Case) {
	n := uint64(k.Idx + 1)
	p27Tree(k, n)
	for x := uint64(0); x < n; x++ {
		p27Node(k, x, n, bstPath(x, n))
		k.Eval("node/%d/%d", x, n)
	}
	k.Count("nodes", int(n))
}

// p27Size picks a size of a tree.
func p27Size(r *Rand) uint64 {
	b := r.Range(1, 63)
	n := uint64(1) << b
	switch r.Intn(5) {
	case 0:
	case 1:
		n -= uint64(r.Range(1, 3))
	case 2:
		n += uint64(r.Range(1, 3))
	case 3:
		n |= uint64(r.Int63()) & (n - 1)
	case 4:
		n |= n >> r.Range(1, 60)
	}
	return max(1, min(n, 1<<63))
}

// p27Pos picks a log entry.
func p27Pos(r *Rand, n uint64) uint64 {
	x := uint64(r.Int63()) % n
	switch r.Intn(6) {
	case 0:
		x = n - 1 - min(n-1, uint64(r.Intn(5)))
	case 1:
		x = min(n-1, uint64(r.Intn(5)))
	case 2:
		x = min(n-1, uint64(1)<<r.Intn(63))
	case 3:
		x = min(n-1, uint64(1)<<r.Intn(63)-1)
	case 4:
		// A node at a high level.
		h := r.Intn(63)
		x = min(n-1, x>>h<<h|(uint64(1)<<h-1))
	}
	return x
}

func p27Large(k *Case) {
	n := p27Size(k.R)
	p27Tree(k, n)
	for i := 0; i < 10; i++ {
		x := p27Pos(k.R, n)
		p27Node(k, x, n, bstPath(x, n))
		k.Eval("node/%d/%d", x, n)
		p27UpdateView(k, n, ptr(1+p27Pos(k.R, n)))
	}
	p27UpdateView(k, n, nil)
	p27UpdateView(k, n, ptr(uint64(0)))
	p27UpdateView(k, n, &n)
	k.Count("nodes", 10)
	k.Count("large trees", 1)
}

// p27UpdateView checks which log entries a user that knows a tree of size m
// needs to look at: those that it will retain and doesn't know, and those that
// show that the last entry it knows is in order with them.
func p27UpdateView(k *Case, n uint64, m *uint64) {
	var want []uint64
	set := make(map[uint64]bool)
	add := func(x uint64) {
		if !set[x] {
			set[x] = true
			want = append(want, x)
		}
	}
	switch {
	case m != nil && *m == n:
	case m == nil || *m == 0:
		want = bstFrontier(n)
	default:
		for _, x := range bstRightAncestors(*m-1, n) {
			add(x)
		}
		for _, x := range bstFrontier(n) {
			if x >= *m {
				add(x)
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	}
	if got := math.UpdateView(n, m); !slices.Equal(got, want) && len(got)+len(want) > 0 {
		from := "nothing"
		if m != nil {
			from = fmt.Sprintf("size %d", *m)
		}
		k.Fail("update of the view from %s to size %d is %v, expected %v", from, n, got, want)
	}
	k.Eval("view/%d/%v", n, fmt.Sprint(p27Opt(m)))
}

func p27Opt(m *uint64) int64 {
	if m == nil {
		return -1
	}
	return int64(*m)
}

func p27UpdateViews(k *Case) {
	n := uint64(k.Idx + 1)
	p27UpdateView(k, n, nil)
	for m := uint64(0); m <= n; m++ {
		p27UpdateView(k, n, &m)
	}
	k.Count("views", int(n)+2)
}

// p27Base is the whole ladder for a target.
func p27Base(t uint32) []uint32 {
	const top = 1<<32 - 1
	var out []uint32
	lo, hi := int64(-1), int64(1<<32) // the target is at least lo and less than hi
	for v := int64(0); ; v = 2*v + 1 {
		out = append(out, uint32(v))
		if v > int64(t) {
			hi = v
			break
		}
		lo = v
		if v == top {
			return out
		}
	}
	for hi-lo > 1 {
		v := lo + (hi-lo)/2
		out = append(out, uint32(v))
		if v <= int64(t) {
			lo = v
		} else {
			hi = v
		}
	}
	return out
}

// p27Decided tells what lookups say about how the greatest version compares to
// a target.
func p27Decided(t uint32, lo, hi int64) (res int, ok bool) {
	switch {
	case lo > int64(t):
		return 1, true
	case hi <= int64(t):
		return -1, true
	case lo == int64(t) && hi == int64(t)+1:
		return 0, true
	}
	return 0, false
}

// p27Ladder checks the ladders for a target and a greatest version.
func p27Ladder(k *Case, t uint32, g uint32) {
	got := math.SearchBinaryLadder(t, g, nil, nil)
	base := p27Base(t)
	k.Assert(len(got) <= len(base) && slices.Equal(got, base[:len(got)]), "search ladder for %d where %d is the greatest version is %v, expected a prefix of %v", t, g, got, base)
	lo, hi := int64(-1), int64(1<<32)
	proof := &prefix.PrefixProof{}
	for i, v := range got {
		_, ok := p27Decided(t, lo, hi)
		k.Assert(!ok, "search ladder for %d where %d is the greatest version goes on after %v, which is sufficient: %v", t, g, got[:i], got)
		k.Assert(int64(v) > lo && int64(v) < hi, "search ladder for %d where %d is the greatest version has a lookup that tells nothing: %v", t, g, got)
		if v <= g {
			lo = int64(v)
		} else {
			hi = int64(v)
		}
		proof.Results = append(proof.Results, simResult(v <= g))
	}
	res, ok := p27Decided(t, lo, hi)
	k.Assert(ok && res == cmpVer(int64(g), t), "search ladder for %d where %d is the greatest version is not sufficient: %v", t, g, got)
	k.Assert(len(got) <= 64, "search ladder for %d where %d is the greatest version has %d lookups", t, g, len(got))
	// What a client makes of it.
	whole := math.SearchBinaryLadder(t, t, nil, nil)
	k.Assert(slices.Equal(whole, base), "search ladder for %d is %v, expected %v", t, whole, base)
	res, err := math.InterpretSearchLadder(whole, t, proof)
	if err != nil || res != cmpVer(int64(g), t) {
		k.Fail("search ladder for %d where %d is the greatest version is interpreted as %d, error: %v", t, g, res, err)
	}
	k.Eval("ladder/%d/%d", t, g)
}

func p27Monitoring(k *Case, t uint32) {
	var want []uint32
	for _, v := range p27Base(t) {
		if v <= t {
			want = append(want, v)
		}
	}
	got := math.MonitoringBinaryLadder(t)
	k.Assert(slices.Equal(got, want), "monitoring ladder for %d is %v, expected %v", t, got, want)
	k.Assert(slices.Contains(got, t), "monitoring ladder for %d lacks it: %v", t, got)
	// No version exists → the first lookup tells.
	res, err := math.InterpretSearchLadder(math.SearchBinaryLadder(t, t, nil, nil), t, &prefix.PrefixProof{Results: []prefix.PrefixSearchResult{simResult(false)}})
	k.Assert(err == nil && res == -1, "a label without versions is taken to be %d compared to version %d, error: %v", res, t, err)
	k.Eval("monitoring/%d", t)
}

func p27Ladders(k *Case) {
	t := uint32(k.Idx)
	p27Monitoring(k, t)
	for g := uint32(0); int(g) <= k.N(300, 1500); g++ {
		p27Ladder(k, t, g)
	}
	k.Count("ladders", k.N(300, 1500)+1)
}

// p27Version picks a version.
func p27Version(r *Rand) uint32 {
	v := uint32(1) << r.Intn(32)
	switch r.Intn(6) {
	case 0:
		v -= uint32(r.Intn(4))
	case 1:
		v += uint32(r.Intn(4))
	case 2:
		v = uint32(r.Int63())
	case 3:
		v |= uint32(r.Int63()) & (v - 1)
	case 4:
		v = ^uint32(0) - uint32(r.Intn(4))
	case 5:
		v = uint32(r.Intn(5000))
	}
	return v
}

func p27LargeLadders(k *Case) {
	r := k.R
	t := p27Version(r)
	p27Monitoring(k, t)
	gs := []uint32{t, t + 1, t - 1, 0, 1, ^uint32(0), ^uint32(0) - 1}
	for i := 0; i < 10; i++ {
		gs = append(gs, p27Version(r))
	}
	base := p27Base(t)
	for i := 0; i < 6; i++ {
		v := base[r.Intn(len(base))]
		gs = append(gs, v, v-1, v+1)
	}
	for _, g := range gs {
		p27Ladder(k, t, g)
		p27Omit(k, t, g)
	}
	k.Count("ladders", 2*len(gs))
}

// p27Omit checks that lookups are left out if they are known, and no others.
func p27Omit(k *Case, t, g uint32) {
	r := k.R
	left, right := make(map[uint32]struct{}), make(map[uint32]struct{})
	rate := pick(r, 0, 0.2, 0.6, 1.0)
	full := math.SearchBinaryLadder(t, g, nil, nil)
	var want []uint32
	for _, v := range full {
		known := r.P(rate)
		if known && v <= g {
			left[v] = struct{}{}
		} else if known {
			right[v] = struct{}{}
		} else {
			want = append(want, v)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		if v := p27Version(r); !slices.Contains(full, v) {
			left[v] = struct{}{}
			right[v] = struct{}{}
		}
	}
	got := math.SearchBinaryLadder(t, g, left, right)
	if !slices.Equal(got, want) && len(got)+len(want) > 0 {
		k.Fail("search ladder for %d where %d is the greatest version, %v to the left, and not %v to the right, is %v, expected %v", t, g, left, right, got, want)
	}
	k.Eval("omit/%d/%d/%d", t, g, len(want))
}

// p27Interpretation has all results of lookups be interpreted.
func p27Interpretation(k *Case) {
	r := k.R
	t := uint32(k.Idx)
	if t >= 200 {
		t = p27Version(r)
	}
	full := p27Base(t)
	try := func(ladder []uint32, bits []bool) {
		// The result is that of the first lookup that tells that the greatest
		// version is not the target. There must be nothing behind it.
		want, ok := 0, len(bits) == len(ladder)
		for i := range bits {
			if i >= len(ladder) {
				ok = false
				break
			}
			if bits[i] == (ladder[i] > t) {
				want, ok = -1, i == len(bits)-1
				if bits[i] {
					want = 1
				}
				break
			}
		}
		proof := &prefix.PrefixProof{}
		for _, b := range bits {
			proof.Results = append(proof.Results, simResult(b))
		}
		got, err := math.InterpretSearchLadder(ladder, t, proof)
		if (err == nil) != ok || ok && got != want {
			k.Fail("results %v of lookups %v for version %d are interpreted as %d, error: %v; expected: %d, %v", bits, ladder, t, got, err, want, ok)
		}
		k.Eval("interpret/%d/%v/%v", t, ladder, bits)
	}
	ladders := [][]uint32{full, nil}
	for i := 0; i < 6; i++ {
		var l []uint32
		for _, v := range full {
			if r.P(0.6) {
				l = append(l, v)
			}
		}
		ladders = append(ladders, l)
	}
	for _, l := range ladders {
		for n := 0; n <= min(len(l)+1, 9); n++ {
			for m := 0; m < 1<<n; m++ {
				bits := make([]bool, n)
				for i := range bits {
					bits[i] = m>>i&1 == 1
				}
				try(l, bits)
			}
		}
		// Nearly true results of long ladders.
		for i := 0; i < 40; i++ {
			var bits []bool
			for j := 0; j < len(l)+1; j++ {
				b := r.P(0.5)
				if j < len(l) {
					b = (l[j] <= t) != r.P(0.05)
				}
				bits = append(bits, b)
			}
			try(l, bits[:r.Intn(len(bits)+1)])
			try(l, bits[:min(len(bits), len(l))])
		}
	}
	k.Count("interpretations", 1)
}

// p27Tracker compares what is known about versions with what was said.
func p27Tracker(k *Case) {
	r := k.R
	type fact struct {
		x  uint64
		v  uint32
		in bool
	}
	var facts []fact
	var a, b math.VersionTracker
	for i := r.Intn(12); i > 0; i-- {
		x, g := uint64(r.Intn(20)), r.Intn(30)-1
		if r.P(0.1) {
			x = p27Size(r)
		}
		omit := r.P(0.8)
		var ladder []uint32
		var results []prefix.PrefixSearchResult
		for j := r.Intn(8); j > 0; j-- {
			v := uint32(r.Intn(30))
			if r.P(0.1) {
				v = p27Version(r)
			}
			in := int64(v) <= int64(g)
			ladder = append(ladder, v)
			results = append(results, simResult(in))
			if omit {
				facts = append(facts, fact{x, v, in})
			}
		}
		a.AddResults(x, omit, ladder, results)
		b.AddLadder(x, omit, g, ladder)
	}
	for i := 0; i < 10; i++ {
		x := uint64(r.Intn(21))
		if r.P(0.1) {
			x = p27Size(r)
		}
		left, right := make(map[uint32]struct{}), make(map[uint32]struct{})
		for _, f := range facts {
			if f.in && f.x < x {
				left[f.v] = struct{}{}
			} else if !f.in && f.x > x {
				right[f.v] = struct{}{}
			}
		}
		for j, t := range []*math.VersionTracker{&a, &b} {
			l, rr := t.SearchMaps(x, true)
			if fmt.Sprint(l) != fmt.Sprint(left) || fmt.Sprint(rr) != fmt.Sprint(right) {
				k.Fail("at log entry %d, version lookups %v to the left and %v to the right are taken to be known, expected %v and %v (%d); %v", x, l, rr, left, right, j, facts)
			}
			l, rr = t.SearchMaps(x, false)
			k.Assert(len(l)+len(rr) == 0, "lookups are omitted though they must not be")
		}
		k.Eval("tracker/%d/%d/%d/%d", x, len(facts), len(left), len(right))
	}
}

// p27Searches runs all searches on a log, with and without omitting lookups.
func p27Searches(k *Case, s *simLog, n uint64, ts func(uint64) uint64, greatest func(uint64) int64, vers []uint32, desc func() string) {
	handle := func(all bool) *simHandle {
		h := s.handle()
		h.ts, h.greatest, h.all = ts, greatest, all
		return h
	}
	g := greatest(n - 1)
	for _, v := range append([]uint32{uint32(max(g, 0))}, vers...) {
		for _, kind := range []string{"greatest", "fixed"} {
			run := func(all bool) (*simHandle, uint64, error) {
				h := handle(all)
				var pos uint64
				var err error
				if kind == "greatest" {
					pos, err = algorithms.GreatestVersionSearch(s.cfg, v, n, h.provider())
				} else {
					pos, err = algorithms.FixedVersionSearch(s.cfg, v, n, h.provider())
				}
				return h, pos, err
			}
			h1, pos1, err1 := run(false)
			h2, pos2, err2 := run(true)
			if fmt.Sprint(err1) != fmt.Sprint(err2) || err1 == nil && pos1 != pos2 || len(h1.search) != len(h2.search) {
				k.Fail("%s search for version %d ends at %d (error: %v) if lookups are omitted, and at %d (error: %v) otherwise; %s", kind, v, pos1, err1, pos2, err2, desc())
			}
			for i := range h1.search {
				k.Assert(h1.search[i] == h2.search[i], "%s search for version %d looks at %v if lookups are omitted, and at %v otherwise; %s", kind, v, h1.search, h2.search, desc())
			}
			switch {
			case err1 == nil:
				k.Assert(greatest(pos1) >= int64(v), "%s search for version %d ends at log entry %d, where %d is the greatest; %s", kind, v, pos1, greatest(pos1), desc())
				k.Assert(kind == "fixed" || g == int64(v), "version %d is taken to be the greatest, but it is %d; %s", v, g, desc())
			case kind == "fixed":
				k.Assert(g < int64(v), "search for version %d failed though it exists: %v; %s", v, err1, desc())
			default:
				k.Assert(g != int64(v), "search for version %d failed though it is the greatest: %v; %s", v, err1, desc())
			}
			k.Count("searches", 1)
			k.Count("lookups omitted", h1.omitted)
			k.Eval("omission/%s/%d/%d/%v/%s", kind, n, v, err1, desc())
		}
	}
}

func p27Omission(k *Case) {
	depth := k.N(5, 7)
	steps := []int64{0, 1, 2, 5}
	s := &simLog{k: k}
	var rec func()
	rec = func() {
		n := uint64(len(s.greatest))
		var vers []uint32
		g := s.greatest[n-1]
		for v := int64(0); v <= g+2; v++ {
			vers = append(vers, uint32(v))
		}
		for _, rmw := range []uint64{1, 3, 100} {
			s.cfg = simCfg(rmw, 0)
			p27Searches(k, s, n, func(x uint64) uint64 { return x + 1 }, func(x uint64) int64 { return s.greatest[x] }, vers, func() string { return fmt.Sprintf("window %d, greatest versions %v", rmw, s.greatest) })
		}
		if len(s.greatest) == depth {
			return
		}
		for _, d := range steps {
			s.greatest = append(s.greatest, g+d)
			rec()
			s.greatest = s.greatest[:n]
		}
	}
	first := -1 + steps[k.Idx/4]
	s.greatest = []int64{first, first + steps[k.Idx%4]}
	rec()
}

func p27LargeOmission(k *Case) {
	r := k.R
	n := p27Size(r)
	// Greatest versions go up at some points.
	type point struct {
		x uint64
		g int64
	}
	var points []point
	g := int64(-1)
	for i := r.Intn(40); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			g++
		case 1:
			g += int64(r.Intn(10))
		case 2:
			g += int64(p27Version(r))
		case 3:
			g += int64(p27Version(r) >> 8)
		}
		g = min(g, 1<<32-1)
		points = append(points, point{p27Pos(r, n), g})
	}
	var xs []uint64
	for _, p := range points {
		xs = append(xs, p.x)
	}
	slices.Sort(xs)
	for i := range points {
		points[i].x = xs[i]
	}
	greatest := func(x uint64) int64 {
		i := sort.Search(len(points), func(i int) bool { return points[i].x > x })
		if i == 0 {
			return -1
		}
		return points[i-1].g
	}
	s := &simLog{k: k, cfg: simCfg(pick(r, uint64(1), n, n/2+1, n>>uint(r.Intn(40))+1, ^uint64(0)), 0)}
	var vers []uint32
	for i := 0; i < 4 && len(points) > 0; i++ {
		v := points[r.Intn(len(points))].g + int64(r.Range(-2, 2))
		vers = append(vers, uint32(min(max(v, 0), 1<<32-1)))
	}
	vers = append(vers, p27Version(r))
	p27Searches(k, s, n, func(x uint64) uint64 { return x }, greatest, vers, func() string {
		return fmt.Sprintf("size %d, window %d, greatest versions %v", n, s.cfg.ReasonableMonitoringWindow, points)
	})
}
