//go:build P28

package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P28", Level: "exploration", Min: 100000,
		Rule: "searches in logs with a maximum lifetime, compared with the definition of expiry evaluated on the whole log: all small logs (timestamps and greatest versions with all increments up to 2), long random ones, and logs of up to 2^63 entries, through the search algorithms; real servers and clients; and clients of virtual logs whose server proves expiry instead of refusing; an evaluation is one search, keyed by the log and the version",
		Run:  runP28,
	})
}

func runP28(c *Ctx) {
	c.Each("exhaustive", 72, p28Exhaustive)
	c.Each("random", c.N(1500, 100000), p28Random)
	c.Each("large", c.N(4000, 300000), p28Large)
	c.Each("parties", c.N(160, 6000), p28Parties)
	c.Each("proven", c.N(500, 20000), p28Proven)
}

// p28Check searches for a version through the algorithms.
func p28Check(k *Case, s *simLog, d *searchDef, ver uint32, desc func() string) {
	w := d.want(ver)
	h := s.handle()
	h.ts, h.greatest = d.ts, d.greatest
	pos, err := algorithms.FixedVersionSearch(s.cfg, ver, d.n, h.provider())
	switch w.kind {
	case "absent":
		if !isNotFound(err) {
			k.Fail("search for version %d, which does not exist: position %d, error %v; %s", ver, pos, err, desc())
		}
	case "expired":
		if !isExpired(err) {
			k.Fail("search for version %d, which is expired at log entry %d: position %d, error %v; %s", ver, w.terminal, pos, err, desc())
		}
	default:
		if err != nil {
			k.Fail("search for version %d, which is live at log entry %d: %v; %s", ver, w.terminal, err, desc())
		} else if pos != w.terminal {
			k.Fail("search for version %d ends at %d instead of %d; %s", ver, pos, w.terminal, desc())
		}
		want := 0
		if !w.exact {
			want = 1
		}
		if len(h.inclusion) != want {
			k.Fail("search for version %d looks the version up in %v; %s", ver, h.inclusion, desc())
		}
		if want == 1 && (h.inclusion[0].x != w.terminal || len(h.inclusion[0].vers) != 1 || h.inclusion[0].vers[0] != ver) {
			k.Fail("search for version %d looks %v up instead of the version in %d; %s", ver, h.inclusion, w.terminal, desc())
		}
	}
	// Exactly the live entries on the path are inspected.
	var live, got []uint64
	for _, x := range w.path {
		if !d.expired(x) {
			live = append(live, x)
		}
	}
	for _, l := range h.search {
		got = append(got, l.x)
	}
	if fmt.Sprint(live) != fmt.Sprint(got) {
		k.Fail("search for version %d inspects log entries %v instead of %v; %s", ver, got, live, desc())
	}
	k.Count(w.kind, 1)
	if w.expired > 0 {
		k.Count(w.kind+" with expired entries on the path", 1)
	}
	if w.expired > 0 && !w.exact && w.kind != "absent" {
		k.Count(w.kind+" with expired entries on the path, no entry has it as greatest", 1)
	}
}

// p28Greatest makes sure that the greatest version is not lost.
func p28Greatest(k *Case, s *simLog, d *searchDef, desc func() string) {
	g := d.greatest(d.n - 1)
	if g < 0 {
		return
	}
	run := func() *simHandle {
		h := s.handle()
		h.ts, h.greatest = d.ts, d.greatest
		return h
	}
	h := run()
	if _, err := algorithms.GreatestVersionSearch(s.cfg, uint32(g), d.n, h.provider()); err != nil {
		k.Fail("search for the greatest version failed: %v; %s", err, desc())
	}
	// With a lifetime longer than the window, as required of configurations,
	// this is also true if the version is asked for by its number.
	if d.life > d.rmw {
		h = run()
		if _, err := algorithms.FixedVersionSearch(s.cfg, uint32(g), d.n, h.provider()); err != nil {
			k.Fail("search for version %d, which is the greatest, failed: %v; %s", g, err, desc())
		}
	}
}

func p28Exhaustive(k *Case) {
	depth := k.N(5, 7)
	type conf struct{ rmw, life uint64 }
	var confs []conf
	for rmw := uint64(1); rmw <= 3; rmw++ {
		for _, l := range []uint64{1, 2, 4} {
			confs = append(confs, conf{rmw, rmw + l})
		}
	}
	cf := confs[k.Idx%9]
	s := &simLog{k: k, cfg: simCfg(cf.rmw, cf.life)}
	desc := func() string {
		return fmt.Sprintf("window %d, lifetime %d, timestamps %v, greatest versions %v", cf.rmw, cf.life, s.ts, s.greatest)
	}
	tsSteps := []uint64{0, 1, 3}
	gSteps := []int64{0, 1, 2}
	var rec func()
	rec = func() {
		n := len(s.ts)
		d := s.def()
		g := s.greatest[n-1]
		for v := int64(0); v <= g+1; v++ {
			p28Check(k, s, d, uint32(v), desc)
		}
		p28Greatest(k, s, d, desc)
		k.Eval("exhaustive/%d/%d/%v/%v", cf.rmw, cf.life, s.ts, s.greatest)
		if n == depth {
			return
		}
		for _, a := range tsSteps {
			for _, b := range gSteps {
				s.ts, s.greatest = append(s.ts, s.ts[n-1]+a), append(s.greatest, g+b)
				rec()
				s.ts, s.greatest = s.ts[:n], s.greatest[:n]
			}
		}
	}
	i := k.Idx / 9 // 8 ways to start
	s.ts, s.greatest = []uint64{uint64(i&1) * 5}, []int64{int64(i>>1&3) - 1}
	rec()
}

func p28Random(k *Case) {
	r := k.R
	n := r.Range(7, pick(r, 20, 60, 300))
	rmw := pick(r, uint64(1), 2, 5, 20, 100)
	life := rmw + uint64(r.Range(1, pick(r, 2, 10, 100, 1000)))
	s := &simLog{k: k, cfg: simCfg(rmw, life)}
	ts := uint64(r.Intn(200))
	g := int64(-1)
	growth, jumps := r.Float64(), r.Float64()*r.Float64()
	for i := 0; i < n; i++ {
		ts += pick(r, 0, 0, 1, rmw/3, rmw-1, rmw, rmw+1, life/4, life/2, life-1, life, life+1) * uint64(pick(r, 0, 1, 1))
		if r.P(growth) {
			g++
			if r.P(jumps) {
				g += int64(r.Intn(9))
			}
		}
		s.ts, s.greatest = append(s.ts, ts), append(s.greatest, g)
	}
	desc := func() string {
		return fmt.Sprintf("window %d, lifetime %d, timestamps %v, greatest versions %v", rmw, life, s.ts, s.greatest)
	}
	d := s.def()
	for v := int64(0); v <= g+1 && v < 400; v++ {
		p28Check(k, s, d, uint32(v), desc)
		k.Eval("random/%d/%d/%d/%v/%v", rmw, life, v, s.ts, s.greatest)
	}
	p28Greatest(k, s, d, desc)
}

func p28Large(k *Case) {
	r := k.R
	b := r.Range(1, 63)
	n := uint64(1)<<b - uint64(r.Intn(2))
	if r.P(0.6) && b < 63 {
		n += r.Uint64() & (1<<b - 1)
	}
	n = max(n, 1)
	spot := func() uint64 {
		x := r.Uint64() % n
		switch r.Intn(5) {
		case 0:
			x = n - 1 - min(n-1, uint64(r.Intn(5)))
		case 1:
			x = min(n-1, uint64(1)<<r.Intn(63)-uint64(r.Intn(2)))
		case 2:
			h := r.Intn(63)
			x = min(n-1, x>>h<<h|(uint64(1)<<h-1)) + uint64(r.Intn(2))
			x = min(x, n-1)
		}
		return x
	}
	// Timestamps and greatest versions are constant between these spots.
	cuts := map[uint64]bool{0: true}
	for i := r.Range(1, 30); i > 0; i-- {
		cuts[spot()] = true
	}
	xs := sortedPos(cuts)
	rmw := uint64(1) << r.Intn(50)
	life := rmw + 1 + uint64(r.Int63n(int64(rmw*8)))
	if r.P(0.3) {
		life = rmw + 1
	}
	scale := pick(r, rmw, life, life/4, rmw/3)
	var ts []uint64
	var gs []int64
	t, g := uint64(r.Int63())>>r.Intn(63), int64(-1)
	if r.P(0.1) {
		t = ^uint64(0) - (scale+1)*uint64(len(xs)+1) // The last ones there are.
	}
	for range xs {
		t += pick(r, 0, scale, uint64(r.Int63n(int64(scale+1))), scale-min(scale, 1), scale+1)
		if r.P(0.6) {
			g += pick(r, 1, 1, 2, int64(r.Intn(100)), r.Int63()>>r.Range(31, 62))
			g = min(g, 1<<32-1)
		}
		ts, gs = append(ts, t), append(gs, g)
	}
	at := func(x uint64) int { return sort.Search(len(xs), func(i int) bool { return xs[i] > x }) - 1 }
	d := &searchDef{n: n, ts: func(x uint64) uint64 { return ts[at(x)] }, greatest: func(x uint64) int64 { return gs[at(x)] }, rmw: rmw, life: life}
	s := &simLog{k: k, cfg: simCfg(rmw, life)}
	desc := func() string {
		return fmt.Sprintf("size %d, window %d, lifetime %d, positions %v, timestamps %v, greatest versions %v", n, rmw, life, xs, ts, gs)
	}
	vers := map[uint64]bool{}
	for _, g := range gs {
		for _, v := range []int64{g - 1, g, g + 1} {
			if v >= 0 && v < 1<<32 {
				vers[uint64(v)] = true
			}
		}
	}
	for _, v := range sortedPos(vers) {
		p28Check(k, s, d, uint32(v), desc)
		k.Eval("large/%d/%s", v, desc())
	}
	p28Greatest(k, s, d, desc)
}

// p28Parties lets clients search in logs of real servers.
func p28Parties(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.Life = cfg.RMW + 1 + uint64(r.Intn(int(cfg.RMW)*pick(r, 1, 4, 10)))
	w := newWorld(k, cfg)
	if len(w.names) > 3 {
		w.names = w.names[:3]
	}
	w.names = append(w.names, []byte("another label"))
	clients := []*Client{w.newClient()}
	for i := r.Range(5, 50); i > 0; i-- {
		if r.P(0.25) {
			w.setNow(w.now + uint64(r.Intn(int(cfg.Life)+2)))
		} else {
			w.advance()
		}
		adds := w.genAdds()
		if r.P(0.3) { // Versions that are never the greatest.
			l := w.names[r.Intn(len(w.names))]
			for j := r.Range(2, 5); j > 0; j-- {
				adds = append(adds, Add{Label: l, Value: w.newValue()})
			}
		}
		w.MustMutate(adds, nil)
		if r.P(0.6) {
			continue
		}
		if r.P(0.2) {
			clients = append(clients, w.newClient())
		}
		cl := clients[r.Intn(len(clients))]
		ts := w.ts()
		for j := r.Range(1, 6); j > 0; j-- {
			label := w.names[r.Intn(len(w.names))]
			vers := w.cur[string(label)]
			d := &searchDef{n: w.n(), ts: func(x uint64) uint64 { return ts[x] }, greatest: func(x uint64) int64 {
				return int64(sort.Search(len(vers), func(i int) bool { return vers[i].Pos > x })) - 1
			}, rmw: cfg.RMW, life: cfg.Life}
			before := cl.size()
			var ver *uint32
			kind := "found"
			target := len(vers) - 1
			if r.P(0.75) {
				target = r.Intn(len(vers) + 1)
				ver = ptr(uint32(target))
				kind = d.want(*ver).kind
			} else if len(vers) == 0 {
				kind = "absent"
			}
			had := cl.st.clone()
			res, o := cl.Search(label, ver)
			desc := fmt.Sprintf("search for version %s of %.20q (created in %v) with timestamps %v, window %d, lifetime %d, by a client that knows size %d", verStr(ver), label, p28Pos(vers), ts, cfg.RMW, cfg.Life, before)
			k.Logf("%s: %v", desc, o)
			switch kind {
			case "found":
				k.Assert(o.ok(), "%s: %v", desc, o)
				k.Assert(bytes.Equal(res.Value.Value, vers[target].Value), "%s: wrong value", desc)
			case "absent":
				k.Assert(o.srv == nil && isNotFound(o.err), "%s: %v", desc, o)
			case "expired":
				k.Assert(isExpired(o.srv) || isExpired(o.err), "%s: expected that the version is reported expired, but: %v", desc, o)
			}
			if kind != "found" {
				k.Assert(had.equal(cl.st), "%s: client's state changed", desc)
			}
			cl.checkState()
			k.Count("parties: "+kind, 1)
			k.Eval("parties/%d/%d/%s/%v/%v/%d", cfg.RMW, cfg.Life, verStr(ver), p28Pos(vers), ts, before)
		}
	}
}

func p28Pos(vers []Ver) (out []uint64) {
	for _, v := range vers {
		out = append(out, v.Pos)
	}
	return
}

// p28Proven lets clients search in virtual logs, whose server proves that
// versions are expired.
func p28Proven(k *Case) {
	r := k.R
	v := genVirtual(k, true)
	cfg := v.w.cfg
	clients := []*vClient{v.newClient()}
	for round := r.Range(2, 8); round > 0; round-- {
		for i := r.Range(1, 5); i > 0; i-- {
			c := clients[r.Intn(len(clients))]
			if r.P(0.2) {
				c = v.newClient()
				clients = append(clients, c)
			}
			label := v.names[r.Intn(len(v.names))]
			ver := v.someVersion(label)
			g := v.greatest(label, v.n-1)
			d := &searchDef{n: v.n, ts: func(x uint64) uint64 { return v.epoch(x).ts }, greatest: func(x uint64) int64 { return v.greatest(label, x) }, rmw: cfg.RMW, life: cfg.Life}
			target := g
			want := searchWant{kind: "found"}
			if ver != nil {
				target = int64(*ver)
				want = d.want(*ver)
			} else if g < 0 {
				want.kind = "absent"
			}
			m := c.cl.size()
			had := c.cl.st.clone()
			res, o := c.search(label, ver, nil)
			desc := fmt.Sprintf("search for version %s of a label with greatest version %d in a virtual tree of %d entries by a client that knows %d", verStr(ver), g, v.n, m)
			k.Assert(o.srv == nil, "%s: %v", desc, o.srv)
			switch want.kind {
			case "found":
				k.Assert(o.err == nil, "%s: %v", desc, o.err)
				k.Assert(bytes.Equal(res.Value.Value, v.version(label, uint32(target)).oav.Value.Value), "%s: wrong value", desc)
			case "absent":
				k.Assert(isNotFound(o.err), "%s: expected label-not-found, got %v", desc, o.err)
			case "expired":
				k.Assert(isExpired(o.err), "%s: expected that the version is reported expired, got %v", desc, o.err)
			}
			if want.kind != "found" {
				k.Assert(had.equal(c.cl.st), "%s: client's state changed", desc)
				// It is only believed with the proof.
				_, o := c.search(label, ver, p28Break(r))
				k.Assert(!o.ok() && !isNotFound(o.err) && !isExpired(o.err), "%s: a broken proof that the version is %s is accepted: %v", desc, want.kind, o.err)
				k.Assert(had.equal(c.cl.st), "%s: client's state changed by a broken proof", desc)
			}
			if m > 0 || want.kind == "found" {
				c.checkState()
			}
			k.Eval("proven/%v/%d/%d/%d/%s/%d", cfg.Mode, cfg.Suite, v.n, m, verStr(ver), g)
			k.Count("proven: "+want.kind, 1)
		}
		v.publish(v.nextSize())
	}
}

// p28Break spoils a response.
func p28Break(r *Rand) func(*structs.SearchResponse) {
	flip := func(b []byte) { b[r.Intn(len(b))] ^= 1 << r.Intn(8) }
	return func(res *structs.SearchResponse) {
		p := &res.Search
		for {
			switch r.Intn(6) {
			case 0:
				if n := len(p.Timestamps); n > 0 {
					p.Timestamps[r.Intn(n)] += 1 + uint64(r.Intn(3))
					return
				}
			case 1:
				if n := len(p.Inclusion.Elements); n > 0 {
					flip(p.Inclusion.Elements[r.Intn(n)])
					return
				}
			case 2:
				if n := len(p.PrefixProofs); n > 0 {
					if e := p.PrefixProofs[r.Intn(n)].Elements; len(e) > 0 {
						flip(e[r.Intn(len(e))])
						return
					}
				}
			case 3:
				if n := len(p.PrefixProofs); n > 0 {
					p.PrefixProofs = p.PrefixProofs[:n-1]
					return
				}
			case 4:
				if n := len(p.Timestamps); n > 0 {
					p.Timestamps = p.Timestamps[:n-1]
					return
				}
			case 5:
				flip(res.BinaryLadder[r.Intn(len(res.BinaryLadder))].Proof)
				return
			}
		}
	}
}
