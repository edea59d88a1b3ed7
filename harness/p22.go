//go:build P22

package main

import (
	"bytes"
	"reflect"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P22", Level: "exploration", Min: 3000,
		Rule: "clients that become owners of labels with any number of versions, create some themselves, learn about others, and monitor at random times, in real logs in which many or few log entries are distinguished and in virtual logs of up to 2^62 entries; the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one initialisation or one round of owner monitoring, keyed by tree size, owner state before and after, and number of ladders",
		Run:  runP22,
	})
}

func runP22(c *Ctx) {
	c.Each("random", c.N(160, 8000), func(k *Case) {
		cfg := genCfg(k.R)
		if k.R.P(0.3) {
			cfg.Life = cfg.RMW * uint64(k.R.Range(2, 12))
		}
		p22Run(k, newWorld(k, cfg), k.R.Range(5, 40), 0.6, 5)
	})
	c.Each("pages", c.N(40, 2000), func(k *Case) {
		// Nearly every log entry is distinguished.
		cfg := genCfg(k.R)
		cfg.RMW, cfg.Suite = 1, 2
		if k.R.P(0.3) {
			cfg.Life = uint64(k.R.Range(50, 500))
		}
		w := newWorld(k, cfg)
		p22Run(k, w, k.R.Range(40, 160), 0.05, 3)
	})
	c.Each("window", c.N(60, 3000), func(k *Case) {
		// Hardly any is.
		cfg := genCfg(k.R)
		cfg.RMW, cfg.Suite = 1000, 2
		w := newWorld(k, cfg)
		w.names = w.names[:2]
		p22Run(k, w, k.R.Range(20, 60), 0.8, 30)
	})
	c.Each("huge", c.N(40, 3000), func(k *Case) { deepRun(k, pick(k.R, 5, 40, 400), k.R.Range(20, 60), 0.2, 0.6, 0.5) })
	c.Each("virtual", c.N(150, 8000), p22Virtual)
}

// p22Owner is a client that owns labels.
type p22Owner struct {
	cl *Client
	d  duties
}

func p22Run(k *Case, w *World, steps int, busy float64, per int) {
	r := k.R
	var owners []*p22Owner
	w.MustMutate([]Add{{Label: []byte("another label"), Value: []byte("other")}}, nil) // Versions of the first entry can't be in update streams.
	for i := 0; i < steps; i++ {
		if w.cfg.RMW == 1 {
			w.setNow(w.now + uint64(r.Intn(3)))
		} else if r.P(0.2) {
			w.advance()
		} else {
			w.setNow(w.now + uint64(r.Intn(2*int(w.cfg.RMW)/per+2)))
		}
		w.MustMutate(w.genAdds(), nil)
		if !r.P(busy) {
			continue
		}
		if len(owners) == 0 || len(owners) < 4 && r.P(0.2) {
			owners = append(owners, &p22Owner{w.newClient(), make(duties)})
		}
		for j := r.Range(1, 3); j > 0; j-- {
			o := owners[r.Intn(len(owners))]
			if r.P(0.1) {
				o = &p22Owner{o.cl.clone(), o.d.clone()}
			}
			l := w.names[r.Intn(len(w.names))]
			s := o.cl.Label(l)
			switch {
			case o.cl.size() == 0 || r.P(0.2):
				p22Search(k, w, o, l)
			case s == nil || s.Owner == nil:
				p22Init(k, w, o, l)
			case r.P(0.6):
				p22Update(k, w, o, l, pick(r, 0, 1, 1, 2, 4))
			}
			if o.cl.size() > 0 && r.P(0.6) {
				p22Drain(k, w, o, r.Range(1, 3), false)
			}
		}
	}
	// In the end all owners get to know all versions, and come to rest.
	w.setNow(w.now + 2*w.cfg.RMW)
	w.MustMutate(nil, nil)
	for _, o := range owners {
		if o.cl.size() == 0 {
			continue
		}
		for _, l := range sortedKeys(o.cl.st.labels) {
			if s := o.cl.Label([]byte(l)); s.Owner != nil {
				p22Update(k, w, o, []byte(l), 0)
			}
		}
		p22Search(k, w, o, []byte("another label"))
		p22Drain(k, w, o, 10000, true)
	}
}

func p22Search(k *Case, w *World, o *p22Owner, l []byte) {
	n := len(w.cur[string(l)])
	_, out := o.cl.Search(l, nil)
	if out.srv != nil || out.err != nil && !(n == 0 && isNotFound(out.err)) {
		k.Fail("search for the greatest version of %.20q: %v", l, out)
	}
	if n > 0 && w.cfg.Mode == structs.ContactMonitoring {
		o.d.learnt(l, w.cur[string(l)][n-1].Pos, uint32(n-1), int64(o.cl.dle()), o.cl.size())
	}
}

// greatestAt is the greatest version of a label at a log entry.
func (w *World) greatestAt(l []byte, x uint64) int64 {
	out := int64(-1)
	for v, ver := range w.cur[string(l)] {
		if ver.Pos <= x {
			out = int64(v)
		}
	}
	return out
}

func (w *World) expired(x uint64) bool {
	ts := w.ts()
	return w.cfg.Life > 0 && ts[len(ts)-1]-ts[x] >= w.cfg.Life
}

func p22Init(k *Case, w *World, o *p22Owner, l []byte) {
	cl := o.cl
	dle := cl.dle()
	req, res, out := cl.OwnerInit(l)
	if req == nil {
		k.Assert(dle < 0, "client can not ask to be initialised though there is the distinguished log entry %d: %v", dle, out)
		return
	}
	start := uint64(dle)
	k.Assert(dle >= 0 && req.Start == start, "client asks to start at %d, but the rightmost distinguished log entry is %d", req.Start, dle)
	if w.expired(start) {
		k.Assert(!out.ok(), "ownership could be initialised at an expired log entry")
		k.Count("expired", 1)
		return
	}
	if !out.ok() {
		k.Fail("owner initialisation at %d for a label with %d versions in a tree of size %d: %v", start, len(w.cur[string(l)]), w.n(), out)
	}
	// The greatest versions at the starting position and at the unexpired log
	// entries on the way there that are to its left, nearest first.
	var want []uint32
	path := bstPath(start, w.n())
	for i := len(path) - 1; i >= 0; i-- {
		if x := path[i]; x <= start && !w.expired(x) {
			g := w.greatestAt(l, x)
			if g < 0 {
				break
			}
			want = append(want, uint32(g))
		}
	}
	k.Assert(len(want) == len(res.GreatestVersions) && (len(want) == 0 || reflect.DeepEqual(want, res.GreatestVersions)), "owner initialisation at %d in a tree of size %d: greatest versions are %v, expected %v", start, w.n(), res.GreatestVersions, want)
	s := cl.Label(l)
	k.Assert(s != nil && s.Owner != nil, "no owner state after initialisation at %d", start)
	k.Assert(s.Owner.Starting == start && int64(s.Owner.VerAtStarting) == w.greatestAt(l, start) && len(s.Owner.UpcomingVers) == 0, "wrong owner state after initialisation at %d: %+v", start, s.Owner)
	p22Retained(k, w, cl, l)
	cl.checkState()
	o.d.check(cl, l, p22First(w, l))
	k.Logf("owner of %.20q initialised at %d in a tree of size %d: %v", l, start, w.n(), want)
	k.Eval("init/%d/%d/%d/%v", w.cfg.Mode, w.n(), start, want)
	k.Count("initialisations", 1)
}

func p22First(w *World, l []byte) func(uint32) (uint64, bool) {
	return func(ver uint32) (uint64, bool) {
		vs := w.cur[string(l)]
		if int64(ver) >= int64(len(vs)) {
			return 0, false
		}
		return vs[ver].Pos, true
	}
}

// p22Retained compares the retained versions of a label with the true ones.
func p22Retained(k *Case, w *World, cl *Client, l []byte) {
	s := cl.Label(l)
	if s == nil {
		return
	}
	seen := make(map[uint32]bool)
	for _, v := range s.Versions {
		k.Assert(!seen[v.Version], "client retains version %d twice", v.Version)
		seen[v.Version] = true
		out, _ := w.vrfOf(l, v.Version)
		k.Assert(bytes.Equal(out, v.VrfOutput), "client retains a wrong VRF output for version %d", v.Version)
		if v.Commitment != nil {
			k.Assert(int64(v.Version) < int64(len(w.cur[string(l)])) && bytes.Equal(v.Commitment, w.commit(l, v.Version, w.stored(l, v.Version))), "client retains a wrong commitment for version %d", v.Version)
		}
	}
}

// p22Update lets an owner create versions, and get to know all others.
func p22Update(k *Case, w *World, o *p22Owner, l []byte, count int) {
	x := op{kind: "update", label: l}
	k.Logf("update of %.20q by owner who knows %d: %+v %+v", l, o.cl.size(), o.cl.Label(l).Contact, o.cl.Label(l).Owner)
	for i := 0; i < count; i++ {
		x.values = append(x.values, w.newValue())
	}
	res := o.cl.do(x, w, tamper{seq: w.stillSequencer})
	if !res.ok() {
		k.Fail("update of %.20q with %d values: %v", l, count, res.outcome)
	}
	for _, x := range res.responses {
		pos := x.(*structs.UpdateResponse).Position
		o.d.learnt(l, pos, uint32(w.greatestAt(l, pos)), int64(o.cl.dle()), 0)
	}
	s := o.cl.Label(l).Owner
	k.Assert(s.VerAtStarting+len(s.UpcomingVers) == len(w.cur[string(l)])-1, "owner knows %d+%d versions after an update, there are %d", s.VerAtStarting+1, len(s.UpcomingVers), len(w.cur[string(l)]))
	for i, pos := range s.UpcomingVers {
		k.Assert(w.cur[string(l)][s.VerAtStarting+1+i].Pos == pos, "owner has a wrong position for version %d", s.VerAtStarting+1+i)
	}
	o.d.check(o.cl, l, p22First(w, l))
	p22Retained(k, w, o.cl, l)
	k.Count("updates", 1)
}

// p22Drain monitors until there is nothing left to do, for at most some
// rounds.
func p22Drain(k *Case, w *World, o *p22Owner, rounds int, end bool) {
	cl := o.cl
	idle := make(map[string]int)
	for i := 0; i < rounds; i++ {
		if cl.dle() < 0 {
			return
		}
		d0 := uint64(cl.dle())
		stale := cl.st.staleLabels(d0)
		m := cl.size()
		before := cl.st.clone()
		req, out := cl.Monitor()
		if !out.ok() {
			k.Fail("monitoring one of %q in a tree of size %d by a client that knows %d, request %+v: %v", stale, w.n(), m, req, out)
		}
		if req == nil {
			k.Assert(len(stale) == 0, "client does not monitor %q", stale)
			break
		}
		dle := uint64(cl.dle())
		cl.checkState()
		var l []byte
		switch req := req.(type) {
		case *structs.ContactMonitorRequest:
			l = req.Label
			k.Count("rounds of contact monitoring", 1)
		case *structs.OwnerMonitorRequest:
			l = req.Label
			s0 := before.label(cl, l).Owner
			moved := p22Round(k, w, cl, req, s0, m)
			if moved {
				idle[string(l)] = 0
			} else {
				idle[string(l)]++
			}
		}
		o.d.monitored(l, int64(dle), cl.size())
		o.d.stopped(cl, l, int64(dle))
		o.d.check(cl, l, p22First(w, l))
		p22Retained(k, w, cl, l)
		// A label with versions that the owner doesn't know remains stale.
		if !end && idle[string(l)] > 2 {
			return
		}
		if idle[string(l)] > 2 {
			k.Fail("owner monitoring makes no progress in %d rounds: %+v", idle[string(l)], cl.Label(l).Owner)
		}
	}
	if end {
		for l := range cl.st.labels {
			s := cl.Label([]byte(l))
			k.Assert(len(s.Contact) == 0 || uint64(cl.dle()) < s.Contact[len(s.Contact)-1].Position, "contact monitoring of an owned label has not ended")
			if s.Owner != nil {
				k.Assert(int(s.Owner.Starting) == cl.dle(), "owner is at log entry %d in the end, the rightmost distinguished one is %d", s.Owner.Starting, cl.dle())
			}
		}
	}
}

func (s *CStore) label(cl *Client, l []byte) *structs.ClientLabelState {
	c := cl.clone()
	c.st = s
	return c.Label(l)
}

// p22Round checks one round of owner monitoring, and reports whether it has
// made progress, or there was no need to.
func p22Round(k *Case, w *World, cl *Client, req *structs.OwnerMonitorRequest, s0 *structs.LabelOwnerState, m uint64) bool {
	l := req.Label
	s1 := cl.Label(l).Owner
	n := w.n()
	from, to := s0.Starting, s1.Starting
	var next, steps int64 = -1, 0
	on := false
	for _, x := range refDistinguished(w.ts(), w.cfg.RMW) {
		if x == to {
			on = true
		}
		if x <= from {
			continue
		}
		known := int64(s0.VerAtStarting)
		for _, pos := range s0.UpcomingVers {
			if pos <= x {
				known++
			}
		}
		if x <= to {
			steps++
			k.Assert(known == w.greatestAt(l, x), "owner that knows version %d advanced past log entry %d, where there is version %d", known, x, w.greatestAt(l, x))
		} else if next < 0 && known == w.greatestAt(l, x) {
			next = int64(x)
		} else if next < 0 {
			next = -2 // The owner has to learn about versions first.
		}
	}
	k.Assert(to >= from && (on || to == from), "owner has moved from log entry %d to %d, which is not distinguished", from, to)
	k.Assert(int64(s1.VerAtStarting) == w.greatestAt(l, to), "owner has version %d at log entry %d, it is %d", s1.VerAtStarting, to, w.greatestAt(l, to))
	for i, pos := range s1.UpcomingVers {
		k.Assert(pos > to && w.cur[string(l)][s1.VerAtStarting+1+i].Pos == pos, "owner has a wrong position for version %d", s1.VerAtStarting+1+i)
	}
	k.Assert(s0.VerAtStarting+len(s0.UpcomingVers) == s1.VerAtStarting+len(s1.UpcomingVers), "owner monitoring has changed which versions the owner knows")
	k.Logf("owner of %.20q monitored from %d to %d (%d steps) in a tree of size %d, next is %d", l, from, to, steps, n, next)
	k.Eval("monitor/%d/%d/%d/%d/%d/%d/%d", w.cfg.Mode, m, n, from, to, s1.VerAtStarting, len(s1.UpcomingVers))
	k.Count("rounds of owner monitoring", 1)
	k.Count("distinguished log entries inspected", int(steps))
	if next >= 0 {
		k.Count("rounds that need to be continued", 1)
	} else if next == -2 {
		k.Count("rounds that end at unknown versions", 1)
	}
	return steps > 0 || next < 0 && next != -2
}

func p22Virtual(k *Case) {
	r := k.R
	v := genVirtual(k, true)
	clients := []*vClient{v.newClient()}
	w := v.w
	for round := r.Range(3, 12); round > 0; round-- {
		for i := r.Range(1, 6); i > 0; i-- {
			if r.P(0.2) {
				clients = append(clients, v.newClient())
			}
			c := clients[r.Intn(len(clients))]
			cl := c.cl
			l := v.names[r.Intn(len(v.names))]
			if cl.size() == 0 || r.P(0.15) {
				c.search(l, nil, nil)
				continue
			}
			m := cl.size()
			dle := v.rightmostDLE(m)
			if dle < 0 {
				continue
			}
			expired := func(x uint64) bool {
				return w.cfg.Life > 0 && v.epoch(v.n-1).ts-v.epoch(x).ts >= w.cfg.Life
			}
			s := cl.Label(l)
			if s == nil || s.Owner == nil {
				o := c.init(l, nil)
				if expired(uint64(dle)) {
					k.Assert(!o.ok(), "ownership could be initialised at an expired log entry")
					continue
				}
				if !o.ok() {
					k.Fail("initialising an owner at %d of %d entries, of a label with version %d there: %v", dle, v.n, v.greatest(l, uint64(dle)), o)
				}
				s := cl.Label(l).Owner
				k.Assert(s.Starting == uint64(dle) && int64(s.VerAtStarting) == v.greatest(l, s.Starting), "wrong owner state at %d of %d: %+v", dle, v.n, s)
				c.checkState()
				k.Eval("virtual init/%d/%d/%d/%d", m, v.n, dle, s.VerAtStarting)
				k.Count("initialisations in virtual logs", 1)
				continue
			}
			from, ver := s.Owner.Starting, s.Owner.VerAtStarting
			req, o := c.monitor(l, nil)
			if !o.ok() {
				k.Fail("owner monitoring at %d of %d entries: %v", from, v.n, o)
			}
			if req == nil {
				k.Assert(uint64(dle) <= from || len(s.Contact) > 0, "owner at %d does not monitor though %d is distinguished", from, dle)
				continue
			}
			c.checkState()
			s2 := cl.Label(l).Owner
			to := s2.Starting
			k.Assert(to >= from && s2.VerAtStarting == ver && v.greatest(l, to) == int64(ver), "owner with version %d advanced from %d to %d, where the version is %d", ver, from, to, v.greatest(l, to))
			// It has advanced to the last distinguished log entry at which its
			// version is the greatest one, unless the page was full.
			k.Eval("virtual/%d/%d/%d/%d/%d", m, v.n, from, to, ver)
			k.Count("rounds of owner monitoring in virtual logs", 1)
			if to > from {
				k.Count("rounds that advance in virtual logs", 1)
			}
		}
		if r.P(0.7) {
			v.publish(v.nextSize())
		} else {
			v.publish(v.someSize())
		}
	}
}
