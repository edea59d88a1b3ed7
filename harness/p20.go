//go:build P20

package main

import (
	"reflect"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P20", Level: "exploration", Min: 3000,
		Rule: "random histories of logs, real ones and virtual ones of up to 2^62 entries, in which clients search for versions of labels and monitor them at random times, compared with the versions that they have seen and that no distinguished log entry covers yet; the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one round of monitoring, keyed by tree sizes, distinguished log entry, map before and after",
		Run:  runP20,
	})
}

func runP20(c *Ctx) {
	c.Each("random", c.N(200, 12000), func(k *Case) {
		w := newWorld(k, p20Cfg(k.R))
		p20Run(k, w, k.R.Range(10, 45), 0.5)
	})
	c.Each("dense", c.N(120, 6000), func(k *Case) {
		// Few labels that get new versions all the time, frequent operations.
		cfg := p20Cfg(k.R)
		cfg.Suite = 2
		w := newWorld(k, cfg)
		w.names = w.names[:1]
		p20Run(k, w, k.R.Range(20, 70), 0.9)
	})
	c.Each("window", c.N(120, 6000), func(k *Case) {
		// Many log entries within one monitoring window, so that maps have
		// entries on both sides of the rightmost distinguished log entry.
		cfg := p20Cfg(k.R)
		cfg.Suite, cfg.RMW, cfg.Start = 2, 1000, 0
		w := newWorld(k, cfg)
		p20Window(k, w)
	})
	c.Each("long", c.N(10, 300), func(k *Case) {
		cfg := p20Cfg(k.R)
		cfg.Suite = 2
		cfg.RMW = 1000
		w := newWorld(k, cfg)
		p20Run(k, w, k.R.Range(150, 300), 0.15)
	})
	c.Each("huge", c.N(40, 3000), func(k *Case) { deepRun(k, pick(k.R, 5, 40, 200), k.R.Range(20, 60), 0.5, 0.1, 0.6) })
	c.Each("virtual", c.N(150, 8000), p20Virtual)
}

func p20Cfg(r *Rand) WorldCfg {
	cfg := genCfg(r)
	if r.P(0.9) {
		cfg.Mode, cfg.AudGap = structs.ContactMonitoring, 0
	}
	return cfg
}

func p20Window(k *Case, w *World) {
	r := k.R
	c := &p20Client{w.newClient(), make(duties)}
	l, other := w.names[0], w.names[1]
	first := func(l []byte) func(uint32) (uint64, bool) {
		return func(ver uint32) (uint64, bool) { return w.cur[string(l)][ver].Pos, true }
	}
	w.MustMutate([]Add{{Label: other, Value: w.newValue()}}, nil)
	per := uint64(r.Range(3, 30))
	often := pick(r, 0.3, 0.6, 1)
	owns := r.P(0.5) // the client will be the owner of the label
	for i := r.Range(20, 80); i > 0; i-- {
		w.setNow(w.now + w.cfg.RMW/per + uint64(r.Intn(3)))
		owner := c.cl.Label(l) != nil && c.cl.Label(l).Owner != nil
		if owns && !owner && c.cl.size() > 0 && c.cl.dle() >= 0 {
			if _, _, o := c.cl.OwnerInit(l); !o.ok() {
				k.Fail("initialising an owner: %v", o)
			}
			p20Update(k, w, c, l, 0)
			owner = true
		}
		create := r.P(often)
		if owner && create {
			p20Update(k, w, c, l, r.Range(1, 2))
			c.d.check(c.cl, l, first(l))
		} else {
			var adds []Add
			if create {
				adds = append(adds, Add{Label: l, Value: w.newValue()})
			}
			w.MustMutate(adds, nil)
		}
		n := len(w.cur[string(l)])
		if n > 0 && r.P(0.5) && (!owner || r.P(0.2)) {
			if r.P(0.6) {
				p20Search(k, w, c, l, nil, uint32(n-1), first)
			}
			for j := r.Intn(4); j > 0; j-- {
				target := uint32(n - 1 - r.Intn(min(n, int(per))))
				p20Search(k, w, c, l, ptr(target), target, first)
			}
		} else if r.P(0.8) {
			// Learn that the tree has grown.
			p20Search(k, w, c, other, ptr(uint32(0)), 0, first)
			p20Monitor(k, w, c, first)
		}
	}
}

// p20Update lets an owner create some versions, or learn about all there are.
func p20Update(k *Case, w *World, c *p20Client, l []byte, count int) {
	o := op{kind: "update", label: l}
	for i := 0; i < count; i++ {
		o.values = append(o.values, w.newValue())
	}
	res := c.cl.do(o, w, tamper{seq: w.stillSequencer})
	if !res.ok() {
		k.Fail("update of %d values: %v", count, res.outcome)
	}
	for _, x := range res.responses {
		pos := x.(*structs.UpdateResponse).Position
		last := 0
		for v, ver := range w.cur[string(l)] {
			if ver.Pos == pos {
				last = v
			}
		}
		c.d.learnt(l, pos, uint32(last), int64(c.cl.dle()), 0)
		k.Logf("updated to version %d in %d", last, pos)
	}
	k.Count("updates", len(res.responses))
}

// p20Client is a client and what it has to monitor.
type p20Client struct {
	cl *Client
	d  duties
}

func p20Run(k *Case, w *World, steps int, busy float64) {
	r := k.R
	clients := []*p20Client{{w.newClient(), make(duties)}}
	first := func(l []byte) func(uint32) (uint64, bool) {
		return func(ver uint32) (uint64, bool) {
			vs := w.cur[string(l)]
			if int64(ver) >= int64(len(vs)) {
				return 0, false
			}
			return vs[ver].Pos, true
		}
	}
	few := r.P(0.7) // the clock moves in small steps mostly
	part := pick(r, 2, 4, 8, 16)
	for i := 0; i < steps; i++ {
		if !few || r.P(0.03) {
			w.advance()
		} else {
			w.setNow(w.now + uint64(r.Intn(int(w.cfg.RMW)/part+1)))
		}
		w.MustMutate(w.genAdds(), nil)
		if !r.P(busy) {
			continue
		}
		for j := r.Range(1, 5); j > 0; j-- {
			if r.P(0.1) {
				clients = append(clients, &p20Client{w.newClient(), make(duties)})
			}
			c := clients[r.Intn(len(clients))]
			if r.P(0.1) { // another one of the same history
				c = &p20Client{c.cl.clone(), c.d.clone()}
				clients = append(clients, c)
			}
			l := w.names[r.Intn(len(w.names))]
			if r.P(0.65) {
				n := len(w.cur[string(l)])
				if n == 0 {
					continue
				}
				var ver *uint32
				target := uint32(n - 1)
				if r.P(0.5) {
					target = uint32(r.Intn(n))
					if r.P(0.5) { // a recent one
						target = uint32(n - 1 - r.Intn(min(n, 4)))
					}
					ver = ptr(target)
				}
				p20Search(k, w, c, l, ver, target, first)
				// Versions right before it, too.
				for target > 0 && r.P(0.5) {
					target--
					p20Search(k, w, c, l, ptr(target), target, first)
				}
				continue
			}
			for t := r.Intn(3) + 1; t > 0; t-- {
				if !p20Monitor(k, w, c, first) {
					break
				}
			}
		}
	}
	// In the end everything comes to rest.
	w.setNow(w.now + 2*w.cfg.RMW)
	w.MustMutate(nil, nil)
	w.setNow(w.now + 2*w.cfg.RMW)
	w.MustMutate(nil, nil)
	for _, c := range clients {
		if c.cl.size() == 0 {
			continue
		}
		// Learn about the new tree.
		if _, o := c.cl.Search([]byte("no such label"), nil); !isNotFound(o.err) {
			k.Fail("search for a missing label: %v", o)
		}
		if l := w.names[0]; len(w.cur[string(l)]) > 0 {
			if _, o := c.cl.Search(l, nil); !o.ok() {
				k.Fail("search: %v", o)
			}
		}
		for i := 0; ; i++ {
			k.Assert(i < 20, "monitoring does not end in a tree that doesn't grow")
			if !p20Monitor(k, w, c, first) {
				break
			}
		}
		if c.cl.size() == w.n() {
			k.Assert(len(c.d) == 0 && len(c.cl.st.labels) == 0, "client monitors %q in the end though everything is covered by distinguished log entries; has to monitor %v", sortedKeys(c.cl.st.labels), c.d)
		}
	}
}

func p20Search(k *Case, w *World, c *p20Client, l []byte, ver *uint32, target uint32, first func([]byte) func(uint32) (uint64, bool)) {
	if _, o := c.cl.Search(l, ver); !o.ok() {
		k.Fail("search for version %s of %.20q: %v", verStr(ver), l, o)
	}
	k.Logf("search for version %s (%d) of %.20q at size %d", verStr(ver), target, l, c.cl.size())
	c.learnt(l, w.cur[string(l)][target].Pos, target, int64(c.cl.dle()))
	c.d.check(c.cl, l, first(l))
	k.Count("searches", 1)
}

// learnt is called when a client has found a version.
func (c *p20Client) learnt(label []byte, pos uint64, ver uint32, dle int64) {
	if c.cl.w.cfg.Mode == structs.ContactMonitoring {
		if c.d.learnt(label, pos, ver, dle, c.cl.size()) {
			c.cl.w.k.Count("versions to be monitored", 1)
		}
	} else if s := c.cl.Label(label); s == nil || s.Owner == nil {
		c.cl.w.k.Assert(s == nil, "client monitors a label it searched for, though it doesn't have to in this mode")
	}
}

// p20Monitor performs one round of monitoring and reports whether there was
// anything to do.
func p20Monitor(k *Case, w *World, c *p20Client, first func([]byte) func(uint32) (uint64, bool)) bool {
	cl := c.cl
	if cl.dle() < 0 {
		return false
	}
	m, d0 := cl.size(), cl.dle()
	stale := cl.st.staleLabels(uint64(d0))
	before := cl.st.clone()
	req, o := cl.Monitor()
	if !o.ok() {
		k.Fail("monitoring of one of %q in a tree of size %d by a client that knows %d, request %+v: %v", stale, w.n(), m, req, o)
	}
	// Once the entry a client looks at is covered, it does monitor.
	k.Assert((req == nil) == (len(stale) == 0), "client has nothing to monitor, but %q is stale", stale)
	if req == nil {
		return false
	}
	var cr *structs.ContactMonitorRequest
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		cr = req
	case *structs.OwnerMonitorRequest:
		cr = &structs.ContactMonitorRequest{Label: req.Label, Entries: req.Entries}
		k.Count("rounds by owners", 1)
	}
	k.Assert(cl.size() == w.n(), "client retains size %d after monitoring in a tree of size %d", cl.size(), w.n())
	cl.checkState()
	dle := int64(cl.dle())
	done := c.d.monitored(cr.Label, dle, cl.size())
	c.d.stopped(cl, cr.Label, dle)
	c.d.check(cl, cr.Label, first(cr.Label))
	for l, rec := range cl.st.labels {
		if l != string(cr.Label) {
			k.Assert(reflect.DeepEqual(rec, before.labels[l]), "monitoring of %.20q altered the state of %.20q", cr.Label, l)
		}
	}
	var after []structs.MonitorMapEntry
	if s := cl.Label(cr.Label); s != nil {
		after = s.Contact
	}
	k.Logf("monitored %.20q in a tree of size %d, distinguished %d: %v -> %v", cr.Label, w.n(), dle, cr.Entries, after)
	k.Eval("%d/%d/%d/%v/%v", m, w.n(), dle, cr.Entries, after)
	k.Count("rounds of monitoring", 1)
	k.Count("versions covered", done)
	if len(cr.Entries) > 1 {
		k.Count("maps with several entries", 1)
	}
	if len(after) > 0 {
		k.Count("rounds that advanced a map", 1)
	}
	return true
}

func p20Virtual(k *Case) {
	r := k.R
	v := genVirtual(k, false)
	cm := v.w.cfg.Mode == structs.ContactMonitoring
	type client struct {
		c *vClient
		d duties
	}
	clients := []*client{{v.newClient(), make(duties)}}
	first := func(l []byte) func(uint32) (uint64, bool) {
		return func(ver uint32) (uint64, bool) { return v.first(l, ver) }
	}
	dleOf := func(n uint64) int64 { return v.rightmostDLE(n) }
	for round := r.Range(4, 16); round > 0; round-- {
		for i := r.Range(1, 12); i > 0; i-- {
			if r.P(0.15) {
				clients = append(clients, &client{v.newClient(), make(duties)})
			}
			c := clients[r.Intn(len(clients))]
			cl := c.c.cl
			l := v.names[r.Intn(len(v.names))]
			m := cl.size()
			if r.P(0.6) {
				g := v.greatest(l, v.n-1)
				if g < 0 {
					continue
				}
				ver := v.someVersion(l)
				target := uint32(g)
				if ver != nil {
					target = *ver
					if int64(target) > g {
						continue
					}
				}
				_, o := c.c.search(l, ver, nil)
				if !o.ok() {
					k.Fail("search for version %s in a virtual tree of %d entries: %v", verStr(ver), v.n, o)
				}
				if pos, _ := v.first(l, target); cm {
					c.d.learnt(l, pos, target, dleOf(v.n), v.n)
				}
				c.d.check(cl, l, first(l))
				continue
			}
			if m == 0 || dleOf(m) < 0 {
				continue
			}
			var only []byte
			if r.P(0.5) {
				only = l
			}
			req, o := c.c.monitor(only, nil)
			if !o.ok() {
				k.Fail("monitoring in a virtual tree of %d entries by a client that knows %d, request %+v: %v", v.n, m, req, o)
			}
			if req == nil {
				continue
			}
			c.c.checkState()
			cr := req.(*structs.ContactMonitorRequest)
			dle := dleOf(v.n)
			c.d.monitored(cr.Label, dle, cl.size())
			c.d.stopped(cl, cr.Label, dle)
			c.d.check(cl, cr.Label, first(cr.Label))
			k.Logf("monitored %v in %d, distinguished %d", cr.Entries, v.n, dle)
			k.Eval("virtual/%d/%d/%d/%v/%d", m, v.n, dle, cr.Entries, len(cl.st.labels))
			k.Count("rounds of monitoring of virtual logs", 1)
		}
		if r.P(0.7) {
			v.publish(v.nextSize())
		} else {
			v.publish(v.someSize())
		}
	}
}
