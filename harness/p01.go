//go:build P01

package main

import (
	"bytes"
	"fmt"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P01", Level: "exploration", Min: 3000,
		Rule: "random histories in every mode and suite; at random points, clients with random past states search for greatest and fixed versions (existing and not) through the wire; the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one search compared with the model and is non-trivial if keyed by a new (mode, suite, tree size, client size, version, greatest) tuple",
		Run:  runP01,
	})
}

func runP01(c *Ctx) {
	c.Each("history", c.N(260, 4000), func(k *Case) {
		cfg := genCfg(k.R)
		w := newWorld(k, cfg)
		steps := k.R.Range(3, 40)
		if k.R.P(0.1) {
			steps = k.R.Range(60, 140)
		}
		p01Run(k, w, steps)
	})
	// Labels with very many versions.
	c.Each("deep", c.N(16, 160), func(k *Case) {
		cfg := genCfg(k.R)
		cfg.Suite = 2
		w := newWorld(k, cfg)
		w.names = w.names[:1]
		for i := 0; i < k.R.Range(4, 10); i++ {
			w.advance()
			var adds []Add
			for j := 0; j < pick(k.R, 1, 3, 30, 60, 64); j++ {
				adds = append(adds, Add{Label: w.names[0], Value: w.newValue()})
			}
			w.MustMutate(adds, nil)
		}
		p01Run(k, w, 4)
	})
	// Logs with up to 2^62 entries, of labels with up to 2^32 versions.
	c.Each("huge", c.N(40, 3000), func(k *Case) { deepRun(k, pick(k.R, 5, 40, 400), k.R.Range(10, 40), 1, 0.1, 0.1) })
	c.Each("virtual", c.N(120, 8000), p01Virtual)
	// Tiny trees, systematically: every size up to 12 with one label created in
	// each possible entry, searched by clients that know each earlier size.
	c.Each("tiny", c.N(24, 150), func(k *Case) {
		cfg := genCfg(k.R)
		cfg.Suite = 2
		w := newWorld(k, cfg)
		var clients []*Client
		l := []byte("x")
		for n := 0; n < 12; n++ {
			w.advance()
			var adds []Add
			if k.R.P(0.4) {
				adds = append(adds, Add{Label: l, Value: w.newValue()})
			}
			w.MustMutate(adds, nil)
			for _, cl := range clients {
				c2 := cl.clone()
				for _, ver := range []*uint32{nil, ptr(uint32(0)), ptr(uint32(len(w.cur[string(l)])))} {
					p01Search(k, w, c2, l, ver)
				}
			}
			cl := w.newClient()
			p01Search(k, w, cl, l, nil)
			clients = append(clients, cl)
		}
	})
}

func p01Run(k *Case, w *World, steps int) {
	clients := []*Client{w.newClient()}
	for i := 0; i < steps; i++ {
		w.advance()
		w.MustMutate(w.genAdds(), nil)
		if k.R.P(0.5) {
			continue
		}
		for j := k.R.Range(1, 5); j > 0; j-- {
			if k.R.P(0.15) {
				clients = append(clients, w.newClient())
			}
			cl := clients[k.R.Intn(len(clients))]
			if k.R.P(0.1) { // restart
				cl = cl.clone()
				clients = append(clients, cl)
			}
			label := w.names[k.R.Intn(len(w.names))]
			if k.R.P(0.1) {
				label = []byte("no such label")
			}
			var ver *uint32
			if k.R.P(0.6) {
				n := len(w.cur[string(label)])
				v := uint32(k.R.Intn(n + 2))
				if k.R.P(0.15) {
					v = pick(k.R, uint32(1)<<31, 1<<32-1, 1<<31-1, 1<<16, uint32(n)*2, uint32(n)+7)
				}
				ver = &v
			}
			p01Search(k, w, cl, label, ver)
			// Reach client states with retained per-label data.
			if k.R.P(0.2) && cl.dle() >= 0 {
				if _, o := cl.Monitor(); !o.ok() {
					k.Skip() // P20 and P22 decide this.
				}
			}
		}
	}
}

// p01Search performs a search and compares the outcome with the model.
func p01Search(k *Case, w *World, cl *Client, label []byte, ver *uint32) {
	before := cl.size()
	res, o := cl.Search(label, ver)
	vers := w.cur[string(label)]
	desc := fmt.Sprintf("search for version %s of %.20q (has %d versions) in a tree of size %d by a client that knows size %d", verStr(ver), label, len(vers), w.n(), before)
	k.Logf("%s: %v", desc, o)
	if o.srv != nil {
		k.Fail("%s: server or wire failed: %v", desc, o.srv)
	}
	exists := len(vers) > 0
	target := len(vers) - 1
	if ver != nil {
		exists = int64(*ver) < int64(len(vers))
		target = int(*ver)
	}
	kind := "found"
	if !exists {
		kind = "absent"
		if !isNotFound(o.err) {
			k.Fail("%s: expected label-not-found, got %v", desc, o.err)
		}
	} else {
		if o.err != nil {
			k.Fail("%s: client rejected the answer: %v", desc, o.err)
		}
		if ver == nil {
			k.Assert(res.Version != nil && int(*res.Version) == target, "%s: greatest version reported as %v", desc, res.Version)
		}
		k.Assert(bytes.Equal(res.Value.Value, vers[target].Value), "%s: wrong value %.40q", desc, res.Value.Value)
		k.Assert(cl.size() == w.n(), "%s: client retains size %d", desc, cl.size())
		if w.cfg.Mode == structs.ThirdPartyManagement {
			k.Assert(bytes.Equal(res.Value.Signature, vers[target].Sig), "%s: wrong signature", desc)
		}
	}
	cl.checkState()
	k.Eval("%v/%d/%d/%d/%s/%d/%s", w.cfg.Mode, w.cfg.Suite, w.n(), before, verStr(ver), len(vers), kind)
	k.Count(kind+" "+modeNames[w.cfg.Mode], 1)
	if before == w.n() {
		k.Count("same-head searches", 1)
	}
	if before > 0 && before < w.n() {
		k.Count("searches across growth", 1)
	}
	k.Sample("%s -> %s", desc, kind)
}

func p01Virtual(k *Case) {
	v := genVirtual(k, false)
	clients := []*vClient{v.newClient()}
	for round := k.R.Range(1, 5); round > 0; round-- {
		for i := k.R.Range(1, 5); i > 0; i-- {
			c := clients[k.R.Intn(len(clients))]
			if k.R.P(0.2) {
				c = v.newClient()
				clients = append(clients, c)
			}
			label := v.names[k.R.Intn(len(v.names))]
			ver := v.someVersion(label)
			g := v.greatest(label, v.n-1)
			target := g
			if ver != nil {
				target = int64(*ver)
			}
			m := c.cl.size()
			res, o := c.search(label, ver, nil)
			desc := fmt.Sprintf("search for version %s of a label with greatest version %d in a virtual tree of %d entries by a client that knows %d", verStr(ver), g, v.n, m)
			k.Assert(o.srv == nil, "%s: %v", desc, o.srv)
			kind := "found"
			if target < 0 || target > g {
				kind = "absent"
				k.Assert(isNotFound(o.err), "%s: expected label-not-found, got %v", desc, o.err)
			} else {
				k.Assert(o.err == nil, "%s: client rejected the answer: %v", desc, o.err)
				k.Assert(bytes.Equal(res.Value.Value, v.version(label, uint32(target)).oav.Value.Value), "%s: wrong value", desc)
				k.Assert(c.cl.size() == v.n, "%s: client retains size %d", desc, c.cl.size())
				c.checkState()
			}
			k.Eval("virtual/%v/%d/%d/%d/%s/%d", v.w.cfg.Mode, v.w.cfg.Suite, v.n, m, verStr(ver), g)
			k.Count("virtual "+kind, 1)
		}
		v.publish(v.someSize())
	}
}
