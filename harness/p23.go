//go:build P23

package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P23", Level: "exploration", Min: 3000,
		Rule: "owners of a label in an honest log, which then gets entries with versions that the owner did not create, or from which versions are missing, or in which they have other values, for good or for some entries; the server answers owner monitoring and ownership initialisation as well as it can, or with altered claims or answers; an evaluation is one answer, keyed by tree size, owner state, which distinguished entries are bad, kind of answer and outcome",
		Run:  runP23,
	})
}

func runP23(c *Ctx) {
	for _, g := range []struct {
		kind        string
		quick, deep int
	}{{"added", 120, 8000}, {"removed", 70, 5000}, {"replaced", 70, 5000}, {"blinking", 100, 6000}, {"early", 60, 3000}, {"unborn", 60, 3000}} {
		c.Each(g.kind, c.N(g.quick, g.deep), func(k *Case) { p23Run(k, g.kind) })
	}
	c.Each("init", c.N(120, 8000), p23Init)
	c.Each("evil init", c.N(120, 8000), p23EvilInit)
}

type p23 struct {
	k    *Case
	w    *World
	l    []byte
	turn uint64
	kind string
	slow bool
	m    *Mutator
	pr   *Prover
}

type p23Owner struct {
	p  *p23
	cl *Client
	// known are the commitments of the versions that the owner has created or
	// has been shown, as they were in the log when it was honest.
	known map[uint32][]byte
}

func p23New(k *Case, kind string) *p23 {
	r := k.R
	cfg := genCfg(r)
	cfg.Suite = pick(r, 1, 2, 2, 2)
	cfg.RMW = pick(r, uint64(1), 100, 100)
	if kind == "unborn" && r.P(0.8) || r.P(0.2) {
		cfg.Mode, cfg.RMW = structs.ContactMonitoring, 100
	}
	w := newWorld(k, cfg)
	return &p23{k: k, w: w, l: w.names[0], kind: kind, slow: cfg.Mode == structs.ContactMonitoring && r.P(0.5), m: &Mutator{r: r, cs: w.cs}, pr: &Prover{w: w, page: 25}}
}

// step moves the clock so that many log entries will be distinguished.
func (p *p23) step() {
	r := p.k.R
	if p.w.cfg.RMW == 1 {
		p.w.setNow(p.w.now + uint64(r.Intn(3)))
	} else {
		d := pick(r, uint64(0), 20, 50, 100, 100, 101)
		if p.slow && r.P(0.6) {
			d = uint64(r.Intn(20))
		}
		p.w.setNow(p.w.now + d)
	}
}

func (p *p23) honest(steps int, owners *[]*p23Owner) {
	w, r := p.w, p.k.R
	other := w.names[1]
	for i := steps; i > 0; i-- {
		p.step()
		var adds []Add
		for j := pick(r, 0, 0, 0, 1, 1, 2); j > 0 && p.kind != "unborn"; j-- {
			adds = append(adds, Add{Label: p.l, Value: w.newValue()})
		}
		if r.P(0.3) || len(adds) == 0 && p.kind == "unborn" {
			adds = append(adds, Add{Label: other, Value: w.newValue()})
		}
		w.MustMutate(adds, nil)
		if owners == nil {
			continue
		}
		if len(*owners) == 0 || len(*owners) < 3 && r.P(0.1) {
			*owners = append(*owners, &p23Owner{p: p, cl: w.newClient(), known: make(map[uint32][]byte)})
		}
		for _, o := range *owners {
			o.search(other)
			if o.state() == nil {
				o.init()
				continue
			}
			if r.P(0.5) && p.kind != "unborn" {
				o.update(pick(r, 0, 0, 1, 1, 2, 5))
			}
			for j := r.Intn(3); j > 0; j-- {
				o.monitor()
			}
		}
	}
}

func p23Run(k *Case, kind string) {
	p := p23New(k, kind)
	w, r := p.w, k.R
	w.MustMutate([]Add{{Label: w.names[1], Value: []byte("other")}}, nil)
	var owners []*p23Owner
	p.honest(r.Range(4, 24), &owners)
	for _, o := range owners {
		// The owner knows everything that exists.
		if o.state() != nil && r.P(0.9) {
			if kind != "unborn" {
				o.update(pick(r, 0, 0, 1))
			}
			for j := r.Intn(4); j > 0; j-- {
				o.monitor()
			}
		}
	}
	p.turn = w.n()
	g := len(w.cur[string(p.l)])
	// With curious set, owners also look their label up like other users do,
	// after which they know what the versions that they didn't create contain.
	curious := r.P(0.4)
	// What will be added, removed or replaced.
	var victims []uint32
	added := kind == "added" || kind == "unborn" || g == 0 || kind == "blinking" && r.P(0.5)
	if kind == "early" && r.P(0.5) {
		added = true
	}
	if added {
		v := uint32(g)
		if !curious && r.P(0.05) {
			v += uint32(r.Range(1, 3))
		}
		i := pick(r, 1, 1, 1, 2, 3)
		if curious && kind == "unborn" {
			i = pick(r, 1, 2, 2, 3)
		}
		for ; i > 0; i-- {
			victims = append(victims, v)
			v++
		}
	} else {
		for v := 0; v < g; v++ {
			if r.P(0.3) {
				victims = append(victims, uint32(v))
			}
		}
		if len(victims) == 0 || r.P(0.6) {
			victims = append(victims[:0], uint32(pick(r, g-1, g-1, r.Intn(g))))
		}
	}
	entries := make(map[uint32]prefix.Entry)
	for _, v := range victims {
		if added {
			if curious || r.P(0.5) {
				entries[v] = w.putVersion(p.l, v, w.newValue())
			} else {
				vrf, _ := w.vrfOf(p.l, v)
				entries[v] = prefix.Entry{VrfOutput: vrf, Commitment: r.Bytes(32)}
			}
		} else {
			vrf, _ := w.vrfOf(p.l, v)
			entries[v] = prefix.Entry{VrfOutput: vrf, Commitment: w.commit(p.l, v, w.stored(p.l, v))}
		}
	}
	replace := kind == "replaced" || kind != "removed" && r.P(0.3)
	k.Logf("versions %v of %.20q: %s (added %v, replaced %v) from entry %d on", victims, p.l, kind, added, replace, p.turn)
	bad := false
	start := r.Range(0, 4) // honest entries after the owner was last online
	for i := r.Range(2, 16); i > 0; i-- {
		if curious && start <= 0 && !bad && r.P(0.7) {
			p.w.setNow(p.w.now + uint64(r.Intn(20)))
		} else {
			p.step()
		}
		var add []prefix.Entry
		var remove [][]byte
		want := start <= 0
		if kind == "blinking" && want {
			want = r.P(0.4)
		} else if kind == "early" && want {
			want = start > -3 // for three entries
		}
		start--
		if want != bad {
			for _, v := range victims {
				e := entries[v]
				switch {
				case replace && !added:
					remove = append(remove, e.VrfOutput)
					if want {
						e.Commitment = r.Bytes(32)
					}
					add = append(add, e)
				case want == added:
					add = append(add, e)
				default:
					remove = append(remove, e.VrfOutput)
				}
			}
			bad = want
			if curious && added {
				var idx []uint64
				for len(idx) < g {
					idx = append(idx, w.index(p.l)[len(idx)])
				}
				for range victims {
					if bad {
						idx = append(idx, w.n())
					}
				}
				w.putIndex(p.l, idx)
			}
		}
		if added && bad && !curious && r.P(0.2) {
			// The server admits it.
			idx := w.index(p.l)
			for range victims {
				idx = append(idx, w.n())
			}
			w.putIndex(p.l, idx)
		}
		w.evilAppend(w.now, add, remove)
		for _, o := range owners {
			if o.state() == nil {
				continue
			}
			if r.P(0.5) {
				o.search(w.names[1])
			}
			if curious && r.P(0.7) && (bad || r.P(0.2)) {
				o.look(victims)
			}
			for j := r.Intn(3); j > 0; j-- {
				o.monitor()
			}
		}
	}
	for _, o := range owners {
		if o.state() == nil {
			continue
		}
		o.search(w.names[1])
		for j := 0; j < 3; j++ {
			o.monitor()
		}
	}
}

func (o *p23Owner) state() *structs.LabelOwnerState {
	if s := o.cl.Label(o.p.l); s != nil {
		return s.Owner
	}
	return nil
}

// search lets the client know the present tree.
func (o *p23Owner) search(l []byte) {
	if _, out := o.cl.Search(l, nil); !out.ok() {
		o.p.k.Fail("search for another label: %v", out)
	}
}

// look searches for the owner's label, which has versions that the owner didn't
// create, or lacks some. It may well fail.
func (o *p23Owner) look(victims []uint32) {
	r := o.p.k.R
	var ver *uint32
	if r.P(0.5) {
		v := pick(r, victims...)
		ver = &v
	}
	s0 := clonePtr(o.state())
	before := len(o.cl.Label(o.p.l).Contact)
	_, out := o.cl.Search(o.p.l, ver)
	o.p.k.Assert(reflect.DeepEqual(s0, o.state()), "a search changed what the owner knows about its versions from %+v to %+v", s0, o.state())
	o.p.k.Logf("look %v: %v; contact %v dle %d size %d", verStr(ver), out, o.cl.Label(o.p.l).Contact, o.cl.dle(), o.cl.size())
	switch {
	case !out.ok():
		o.p.k.Count("failed searches by owners", 1)
	case len(o.cl.Label(o.p.l).Contact) > before:
		o.p.k.Count("owners' searches that need contact monitoring", 1)
	default:
		o.p.k.Count("owners' searches", 1)
	}
}

// init makes the client the owner, while the log is honest.
func (o *p23Owner) init() {
	if o.cl.dle() < 0 {
		return
	}
	w := o.p.w
	if _, _, out := o.cl.OwnerInit(o.p.l); !out.ok() {
		w.k.Fail("owner initialisation in an honest log: %v", out)
	}
	o.learn(uint32(o.state().VerAtStarting + 1))
}

func (o *p23Owner) learn(count uint32) {
	for v := uint32(0); v < count; v++ {
		if o.known[v] == nil {
			o.known[v] = o.p.w.commit(o.p.l, v, o.p.w.stored(o.p.l, v))
		}
	}
}

// update creates versions while the log is honest.
func (o *p23Owner) update(count int) {
	x := op{kind: "update", label: o.p.l}
	for ; count > 0; count-- {
		x.values = append(x.values, o.p.w.newValue())
	}
	if res := o.cl.do(x, o.p.w, tamper{seq: o.p.w.stillSequencer}); !res.ok() {
		o.p.k.Fail("update in an honest log: %v", res.outcome)
	}
	o.learn(uint32(len(o.p.w.cur[string(o.p.l)])))
}

// expected is the greatest version that an owner in the given state expects at
// a log entry.
func expected(s *structs.LabelOwnerState, x uint64) int64 {
	v := int64(s.VerAtStarting)
	for _, pos := range s.UpcomingVers {
		if pos <= x {
			v++
		}
	}
	return v
}

// wrong tells what a ladder for the greatest version v shows at a log entry
// that's not as expected.
func (p *p23) wrong(x uint64, v int64, known func(uint32) []byte) string {
	ladder := []uint32{0}
	if v >= 0 {
		ladder = math.SearchBinaryLadder(uint32(v), uint32(v), nil, nil)
	}
	for _, u := range ladder {
		c := p.pr.commitmentAt(p.l, u, x)
		if int64(u) > v && c != nil {
			return fmt.Sprintf("version %d exists", u)
		} else if int64(u) <= v && c == nil {
			return fmt.Sprintf("version %d is missing", u)
		} else if int64(u) <= v && !bytes.Equal(c, known(u)) {
			return fmt.Sprintf("version %d is different", u)
		}
	}
	return ""
}

// monitor performs one round of owner monitoring.
func (o *p23Owner) monitor() {
	p, k, w, r := o.p, o.p.k, o.p.w, o.p.k.R
	if o.cl.size() == 0 || o.cl.dle() < 0 {
		return
	}
	o.cl.st.only = p.l
	defer func() { o.cl.st.only = nil }()
	req, vf, err := o.cl.c.Monitor()
	check(err)
	if req == nil || reflect.ValueOf(req).IsNil() {
		return
	}
	or := clonePtr(req.(*structs.OwnerMonitorRequest))
	s0 := o.cl.Label(p.l).Owner
	n := w.n()
	turned := p.turn > 0 && n > p.turn
	how := "real"
	if turned {
		how = pick(r, "real", "prover", "prover", "adapted", "adapted", "further on", "subset", "altered", "altered", "claims")
	}
	view := algorithms.NewOwnerState(s0).Clone()
	p.pr.page = pick(r, 25, 25, 25, 1, 2)
	base := func(_ []byte, x uint64) int64 { return expected(s0, x) }
	p.pr.claim = base
	var res *structs.OwnerMonitorResponse
	switch how {
	case "real":
		res, err = w.OwnerMonitor(or)
		if err != nil && !turned {
			k.Fail("honest server refused owner monitoring: %v", err)
		}
	case "further on":
		view.SetStarting(s0.Starting + uint64(r.Intn(int(n-s0.Starting))))
	case "adapted":
		p.pr.adapt = true
	case "subset":
		if len(or.Entries) > 0 {
			i := r.Intn(len(or.Entries))
			or.Entries = append(or.Entries[:i:i], or.Entries[i+1:]...)
		}
	case "claims":
		// Tell the truth about what is there.
		p.pr.claim = func(_ []byte, x uint64) int64 {
			v := int64(-1)
			for u := uint32(0); p.pr.commitmentAt(p.l, u, x) != nil; u++ {
				v++
			}
			return v
		}
	}
	if how != "real" {
		res, err = p.pr.OwnerMonitor(or, view)
		p.pr.claim, p.pr.adapt = base, false
	}
	if err != nil {
		k.Count("answers refused", 1)
		return
	}
	if how == "altered" {
		raw, _ := enc(res)
		how += " " + p.m.Mutate(res)
		if out, err := enc(res); err == nil && string(out) == string(raw) {
			how = "prover"
		}
	}
	before := o.cl.st.clone()
	w.use()
	err = vf(res)
	bad, first := 0, ""
	good := int64(s0.Starting)
	for _, x := range refDistinguished(w.ts()[:n], w.cfg.RMW) {
		if x <= s0.Starting {
			continue
		}
		if what := p.wrong(x, expected(s0, x), func(v uint32) []byte { return o.known[v] }); what != "" {
			if bad == 0 {
				first = fmt.Sprintf("in log entry %d %s", x, what)
			}
			bad++
		} else if bad == 0 {
			good = int64(x)
		}
	}
	s1 := s0
	if err != nil {
		k.Assert(o.cl.st.equal(before), "rejected answer changed the stored state")
		if !turned {
			k.Fail("answer of an honest server rejected: %v", err)
		}
		k.Count("answers rejected", 1)
	} else {
		s1 = o.cl.Label(p.l).Owner
		k.Assert(int64(s1.Starting) <= good || s1.Starting == s0.Starting, "owner monitoring advanced from log entry %d to %d on an answer (%s) though %s", s0.Starting, s1.Starting, how, first)
		k.Assert(int64(s1.VerAtStarting) == expected(s0, s1.Starting) && s1.VerAtStarting+len(s1.UpcomingVers) == s0.VerAtStarting+len(s0.UpcomingVers), "owner monitoring changed the versions that the owner knows from %+v to %+v", s0, s1)
		dist := s1.Starting == s0.Starting
		for _, x := range refDistinguished(w.ts(), w.cfg.RMW) {
			dist = dist || x == s1.Starting
		}
		k.Assert(dist, "owner monitoring stopped at log entry %d, which is not distinguished", s1.Starting)
		k.Count("answers accepted", 1)
		if s1.Starting > s0.Starting {
			k.Count("rounds that advanced", 1)
		}
	}
	if turned && bad > 0 {
		if err != nil {
			k.Count("rejected with bad log entries ahead", 1)
		} else if s1.Starting > s0.Starting {
			k.Count("advanced up to a bad log entry", 1)
		} else {
			k.Count("stayed before a bad log entry", 1)
		}
	}
	k.Logf("owner monitoring (%s) in a tree of size %d, from %d, %d bad: %s; now at %d: %v", how, n, s0.Starting, bad, first, s1.Starting, err)
	if turned {
		k.Eval("%s/%d/%d/%d/%d/%d/%d/%s/%v", p.kind, n, s0.Starting, s0.VerAtStarting, len(s0.UpcomingVers), bad, s1.Starting, how, err == nil)
	}
}

// initEntries are the log entries that owner initialisation looks at.
func (w *World) initEntries(start uint64) (out []uint64) {
	path := bstPath(start, w.n())
	for i := len(path) - 1; i >= 0; i-- {
		if x := path[i]; x <= start && !w.expired(x) {
			out = append(out, x)
		}
	}
	return
}

func (w *World) expired(x uint64) bool {
	ts := w.ts()
	return w.cfg.Life > 0 && ts[len(ts)-1]-ts[x] >= w.cfg.Life
}

func p23Init(k *Case) { p23InitRun(k, p23New(k, "init")) }

// p23EvilInit is about initialisation in a log whose entries contradict each
// other.
func p23EvilInit(k *Case) {
	p := p23New(k, "evil init")
	r, w := k.R, p.w
	w.MustMutate([]Add{{Label: w.names[1], Value: []byte("other")}}, nil)
	p.honest(r.Range(3, 20), nil)
	g := len(w.cur[string(p.l)])
	fixed := make(map[uint32][]byte)
	for v := 0; v < g; v++ {
		fixed[uint32(v)] = w.commit(p.l, uint32(v), w.stored(p.l, uint32(v)))
	}
	near := r.P(0.7) // only the greatest version is played with
	for i := r.Range(1, 12); i > 0; i-- {
		p.step()
		var add []prefix.Entry
		var remove [][]byte
		for j := r.Range(0, 2); j > 0; j-- {
			v := uint32(r.Intn(g + 2))
			if near {
				v = uint32(r.Range(max(g-1, 0), g))
			}
			vrf, _ := w.vrfOf(p.l, v)
			if fixed[v] == nil || r.P(0.1) {
				fixed[v] = r.Bytes(32)
			}
			fresh := prefix.Entry{VrfOutput: vrf, Commitment: fixed[v]}
			dup := false
			for _, e := range add {
				dup = dup || bytes.Equal(e.VrfOutput, vrf)
			}
			for _, e := range remove {
				dup = dup || bytes.Equal(e, vrf)
			}
			if dup {
				continue
			}
			if p.pr.commitmentAt(p.l, v, w.n()-1) == nil {
				add = append(add, fresh)
			} else {
				remove = append(remove, vrf)
				if r.P(0.5) {
					add = append(add, fresh)
				}
			}
		}
		w.evilAppend(w.now, add, remove)
	}
	p23InitRun(k, p)
}

func p23InitRun(k *Case, p *p23) {
	r, w := k.R, p.w
	if p.kind == "init" {
		w.MustMutate([]Add{{Label: w.names[1], Value: []byte("other")}}, nil)
		if r.P(0.3) {
			w.cfg.Life = 0 // as in p23New
		}
		p.honest(r.Range(3, 24), nil)
	}
	p.pr.claim = func(_ []byte, x uint64) int64 {
		v := int64(-1)
		for u := uint32(0); p.pr.commitmentAt(p.l, u, x) != nil; u++ {
			v++
		}
		return v
	}
	cl := w.newClient()
	if _, out := cl.Search(w.names[1], nil); !out.ok() {
		k.Fail("search for another label: %v", out)
	}
	if r.P(0.3) {
		p.step()
		w.evilAppend(w.now, nil, nil)
	}
	if cl.dle() < 0 {
		k.Skip()
	}
	for i := 0; i < 6; i++ {
		o := cl.clone()
		req, vf, err := o.c.OwnerInit(p.l)
		check(err)
		sent := clonePtr(req)
		how := pick(r, "real", "prover", "start", "altered", "altered", "claims", "claims", "claims", "claims")
		var alter func([]uint32) []uint32
		switch how {
		case "start":
			dist := refDistinguished(w.ts(), w.cfg.RMW)
			sent.Start = dist[r.Intn(len(dist))]
		case "claims":
			alter = func(in []uint32) []uint32 { return p23Alter(r, in, len(w.initEntries(req.Start))) }
		}
		var res *structs.OwnerInitResponse
		if how == "real" {
			res, err = w.OwnerInit(sent)
		} else {
			res, err = p.pr.OwnerInit(sent, alter)
		}
		if err != nil {
			if p.kind == "init" && how == "real" {
				k.Fail("honest server refused initialisation: %v", err)
			}
			k.Logf("%s: %v", how, err)
			continue
		}
		if how == "altered" {
			how += " " + p.m.Mutate(res)
		}
		before := o.st.clone()
		w.use()
		err = vf(res)
		k.Logf("initialisation at %d (%s) with %v: %v", req.Start, how, res.GreatestVersions, err)
		if err != nil {
			k.Assert(o.st.equal(before), "rejected answer changed the stored state")
			k.Assert(p.kind != "init" || how != "real", "answer of an honest server rejected: %v", err)
			k.Count("initialisations rejected", 1)
		} else {
			k.Count("initialisations accepted", 1)
			xs := w.initEntries(req.Start)
			s := o.Label(p.l)
			k.Assert(s.Owner != nil && s.Owner.Starting == req.Start && len(s.Owner.UpcomingVers) == 0, "wrong owner state: %+v", s.Owner)
			retained := make(map[uint32][]byte)
			for _, v := range s.Versions {
				retained[v.Version] = v.Commitment
				out, _ := w.vrfOf(p.l, v.Version)
				k.Assert(bytes.Equal(out, v.VrfOutput), "wrong VRF output retained for version %d", v.Version)
			}
			k.Assert(len(res.GreatestVersions) <= len(xs), "%d greatest versions accepted for %d log entries", len(res.GreatestVersions), len(xs))
			truth := make([]int64, len(xs))
			for i, x := range xs {
				v := int64(-1)
				if i < len(res.GreatestVersions) {
					v = int64(res.GreatestVersions[i])
				}
				truth[i] = v
				if i == 0 {
					k.Assert(int64(s.Owner.VerAtStarting) == v, "owner starts with version %d though %d is claimed", s.Owner.VerAtStarting, v)
				} else {
					k.Assert(truth[i-1] >= v, "versions that increase to the left were accepted: %v", res.GreatestVersions)
				}
				what := p.wrong(x, v, func(u uint32) []byte { return p.pr.commitmentAt(p.l, u, req.Start) })
				k.Assert(what == "", "initialisation (%s) at %d accepted with versions %v, but in log entry %d %s", how, req.Start, res.GreatestVersions, x, what)
			}
			// What was looked up at the starting position is retained.
			v := int64(s.Owner.VerAtStarting)
			if v >= 0 {
				for _, u := range math.SearchBinaryLadder(uint32(v), uint32(v), nil, nil) {
					c, ok := retained[u]
					k.Assert(ok, "version %d is not retained", u)
					if int64(u) <= v {
						k.Assert(bytes.Equal(c, p.pr.commitmentAt(p.l, u, req.Start)), "wrong commitment retained for version %d", u)
					}
				}
			}
		}
		k.Eval("%s/%d/%d/%v/%s/%v", p.kind, w.n(), req.Start, res.GreatestVersions, how, err == nil)
	}
}

// p23Alter makes false claims.
func p23Alter(r *Rand, in []uint32, n int) []uint32 {
	out := append([]uint32(nil), in...)
	switch r.Intn(7) {
	case 6:
		return nil
	case 0: // one is different
		if len(out) > 0 {
			i := r.Intn(len(out))
			if out[i] > 0 && r.P(0.5) {
				out[i]--
			} else {
				out[i]++
			}
		}
	case 1: // all are
		for i := range out {
			if r.P(0.5) {
				out[i]++
			} else if out[i] > 0 {
				out[i]--
			}
		}
	case 2: // fewer
		if len(out) > 0 {
			out = out[:r.Intn(len(out))]
		}
	case 3: // more
		for len(out) < n {
			out = append(out, 0)
		}
		if r.P(0.3) {
			out = append(out, 0)
		}
	case 4: // the same everywhere
		for i := range out {
			out[i] = out[r.Intn(len(out))]
		}
	case 5:
		for i := range out {
			out[i] += uint32(r.Intn(4))
		}
	}
	return out
}
