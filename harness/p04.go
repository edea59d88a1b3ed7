//go:build P04

package main

import (
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P04", Level: "exploration", Min: 2000,
		Rule: "servers whose clock jumps in both directions; every operation verified by clients whose clock is at, just inside and just outside of the configured bounds; signed trees with timestamps that decrease somewhere; an evaluation is one mutation or one response given to a client, keyed by operation, clock distance and result",
		Run:  runP04,
	})
}

func runP04(c *Ctx) {
	c.Each("server", c.N(250, 4000), p04Server)
	c.Each("bounds", c.N(450, 6000), p04Bounds)
	c.Each("monotone", c.N(450, 6000), p04Monotone)
}

func p04Server(k *Case) {
	w := newWorld(k, genCfg(k.R))
	for i := k.R.Range(3, 25); i > 0; i-- {
		last := uint64(0)
		if n := w.n(); n > 0 {
			last = w.hist[n-1].Ts
		}
		switch k.R.Intn(6) {
		case 0:
			w.advance()
		case 1:
			w.setNow(last)
		case 2:
			w.setNow(last + 1)
		case 3:
			w.setNow(max(last, 1) - 1)
		case 4:
			w.setNow(last / 2)
		case 5:
			w.setNow(0)
		}
		before := copyMem(w.mem())
		head := *w.treeHeadOrZero()
		err := w.Mutate(w.genAdds(), nil)
		if err != nil {
			k.Assert(w.now < last, "mutation failed although the clock (%d) did not go back (%d): %v", w.now, last, err)
			k.Assert(reflect.DeepEqual(before, copyMem(w.mem())), "refused mutation changed the database")
			k.Assert(reflect.DeepEqual(head, *w.treeHeadOrZero()), "refused mutation changed the tree head")
			k.Eval("refused %d", clip(last-w.now))
			k.Count("refused mutations", 1)
			if k.R.P(0.3) {
				w.reload()
			}
			continue
		}
		n := w.n()
		k.Assert(w.hist[n-1].Ts >= last, "entry %d has timestamp %d, its predecessor %d (clock %d)", n-1, w.hist[n-1].Ts, last, w.now)
		k.Eval("issued %d", clip(w.hist[n-1].Ts-last))
		k.Count("issued entries", 1)
	}
	if w.n() > 0 {
		w.setNow(max(w.now, w.hist[w.n()-1].Ts))
		w.MustMutate(w.genAdds(), nil)
	}
}

func clip(x uint64) uint64 { return min(x, 1000) }

func (w *World) treeHeadOrZero() *structs.TreeHead {
	if h := w.treeHead(); h != nil {
		return h
	}
	return &structs.TreeHead{}
}

func p04Bounds(k *Case) {
	cfg := genCfg(k.R)
	cfg.Ahead = pick(k.R, uint64(0), 1, 5, 1000, huge, ^uint64(0))
	cfg.Behind = pick(k.R, uint64(0), 1, 7, 1000, huge, ^uint64(0))
	cfg.Start = pick(k.R, uint64(1_700_000_000_000), 1_700_000_000_000, 0, 3, 1<<62)
	w := newWorld(k, cfg)
	w.Grow(k.R.Range(1, 8))
	for try := 0; try < 6; try++ {
		w.advance()
		w.MustMutate(w.genAdds(), nil)
		clients := w.actors()
		if k.R.P(0.6) {
			for i := k.R.Range(1, 3); i > 0; i-- {
				w.advance()
				w.MustMutate(w.genAdds(), nil)
			}
		}
		last := w.hist[w.n()-1].Ts
		w.setNow(last)
		cl := clients[k.R.Intn(len(clients))]
		o := cl.randOp()
		if o.kind == "update" {
			w.setNow(last)
		}
		type at struct {
			now uint64
			ok  bool
			s   string
		}
		var times []at
		add := func(now uint64, ok bool, s string) { times = append(times, at{now, ok, s}) }
		if a := cfg.Ahead; a <= last {
			add(last-a, true, "at MaxAhead")
			if a < last {
				add(last-a-1, false, "beyond MaxAhead")
				add(uint64(k.R.Int63n(int64(last-a))), false, "far beyond MaxAhead")
			}
		} else {
			add(0, true, "at zero")
		}
		if b := cfg.Behind; last+b >= last {
			add(last+b, true, "at MaxBehind")
			if last+b+1 > last {
				add(last+b+1, false, "beyond MaxBehind")
				add(^uint64(0), false, "far beyond MaxBehind")
			}
		} else {
			add(^uint64(0), true, "at the end of time")
		}
		add(last, true, "exact")
		for _, t := range times {
			c2 := cl.clone()
			shadow := *w
			shadow.now = t.now
			c2.w = &shadow
			srv := w.Clone()
			srv.setNow(last)
			seq := srv.stillSequencer
			out := c2.do(o, srv, tamper{seq: seq})
			what := fmt.Sprintf("%s (client %d of %d) with the clock %s: now %d, rightmost %d, ahead %d, behind %d", o.kind, cl.size(), w.n(), t.s, t.now, last, cfg.Ahead, cfg.Behind)
			if out.idle {
				k.Count("idle", 1)
				break
			}
			k.Assert(out.srv == nil, "%s: server error %v", what, out.srv)
			shown := out.err == nil || isNotFound(out.err) || isExpired(out.err)
			k.Assert(shown == t.ok, "%s: result %v", what, out.err)
			if !t.ok {
				k.Assert(c2.st.equal(cl.st), "%s: rejected response changed the stored state", what)
			}
			same := cl.size() == w.n()
			k.Eval("%s %s %v a%d b%d same=%v", o.kind, t.s, shown, clip(cfg.Ahead), clip(cfg.Behind), same)
			k.Count("clock "+t.s, 1)
		}
	}
}

// p04Monotone serves trees that contain a timestamp smaller than one before it.
func p04Monotone(k *Case) {
	cfg := genCfg(k.R)
	cfg.RMW = pick(k.R, uint64(1), 100, 400, 1000, 100_000)
	cfg.Start = 1_700_000_000_000
	w := newWorld(k, cfg)
	grow := func(n int) {
		for i := 0; i < n; i++ {
			w.setNow(w.now + uint64(k.R.Range(20, 300)))
			w.MustMutate(w.genAdds(), nil)
		}
	}
	grow(k.R.Range(1, 12))
	clients := w.actors()
	m := w.n()
	grow(k.R.Range(0, 10))
	n := w.n()
	cl := clients[k.R.Intn(len(clients))]
	first := uint64(1)
	if cl.size() > 0 {
		first = m
	}
	if first >= n {
		first = min(1, n-1)
	}
	for try := 0; try < 6; try++ {
		o := cl.randOp()
		if o.kind == "update" && try > 2 {
			continue
		}
		p := first + uint64(k.R.Intn(int(n-first)))
		good := w.hist[p].Ts
		var bad uint64
		honest := false
		switch k.R.Intn(4) {
		case 0:
			if p == 0 {
				continue
			}
			q := uint64(k.R.Intn(int(p)))
			bad = w.hist[q].Ts - uint64(k.R.Range(1, 5))
		case 1:
			if p+1 >= n {
				continue
			}
			q := p + 1 + uint64(k.R.Intn(int(n-p-1)))
			bad = w.hist[q].Ts + uint64(k.R.Range(1, 5))
		case 2:
			if p == 0 {
				continue
			}
			bad = w.hist[p-1].Ts - 1
		default:
			honest, bad = true, good
		}
		entries := append([]Entry(nil), w.hist...)
		entries[p].Ts = bad
		srv := w.rebuilt(entries)
		// The server's own code is to see a tree in order.
		le := structs.LogEntry{Timestamp: good, PrefixTree: w.hist[p].Root}
		check(srv.store.Put(p, mustMarshal(&le)))
		srv.setNow(max(w.now, bad))
		c2 := cl.clone()
		shadow := *w
		shadow.now = srv.now
		c2.w = &shadow
		shown := make(map[uint64]uint64)
		if s := cl.State(); s != nil {
			for pos, e := range s.LogEntries {
				shown[pos] = e.Timestamp
			}
		}
		t := tamper{seq: srv.stillSequencer, res: func(no int, res any) {
			ts := timestampsOf(res)
			for i := range ts {
				for pos := range w.hist {
					if no == 0 && w.hist[pos].Ts == ts[i] {
						shown[uint64(pos)] = entries[pos].Ts
					}
				}
				if ts[i] == good {
					ts[i] = bad
				}
			}
		}}
		if o.kind == "update" {
			t.seq = srv.refuse
		}
		out := c2.do(o, srv, t)
		if out.idle || len(out.responses) == 0 {
			k.Count("no response", 1)
			continue
		}
		ordered := true
		prev := uint64(0)
		for _, pos := range sortedPos(shown) {
			if shown[pos] < prev {
				ordered = false
			}
			prev = shown[pos]
		}
		accepted := out.verified > 0 || isNotFound(out.err) || isExpired(out.err)
		what := fmt.Sprintf("%s (client %d of %d) on a tree whose entry %d has timestamp %d instead of %d", o.kind, cl.size(), n, p, bad, good)
		if !ordered {
			k.Assert(!accepted, "%s: accepted although timestamps are out of order: %v", what, shown)
			k.Assert(c2.st.equal(cl.st), "%s: rejected response changed the stored state", what)
			k.Count("shown out of order", 1)
		} else if honest && o.kind != "update" {
			k.Assert(accepted, "%s: rejected (%v)", what, out.err)
		}
		k.Eval("monotone %s ordered=%v accepted=%v %d/%d", o.kind, ordered, accepted, p, n)
	}
}
