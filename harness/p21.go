//go:build P21

package main

import (
	"reflect"
	"sort"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P21", Level: "exploration", Min: 3000,
		Rule: "clients that searched for versions of labels in an honest log, which then gets entries from which some of those versions are missing, or in which they have other values, some of the time or for good; the server answers their monitoring as well as it can, or with altered answers; an evaluation is one answer to a monitoring request, keyed by tree size, map, which inspected entries are bad, kind of answer and outcome",
		Run:  runP21,
	})
}

func runP21(c *Ctx) {
	c.Each("forgotten", c.N(300, 12000), func(k *Case) { p21Run(k, "forgotten") })
	c.Each("replaced", c.N(200, 8000), func(k *Case) { p21Run(k, "replaced") })
	c.Each("blinking", c.N(200, 8000), func(k *Case) { p21Run(k, "blinking") })
	c.Each("superseded", c.N(150, 6000), func(k *Case) { p21Run(k, "superseded") })
}

type p21 struct {
	k    *Case
	w    *World
	l    []byte
	turn uint64
	kind string
	// bad tells for log entries after the turn which versions are missing or
	// different in them.
	bad map[uint64]map[uint32]bool
	m   *Mutator
}

func p21Run(k *Case, kind string) {
	r := k.R
	cfg := genCfg(r)
	cfg.Mode, cfg.AudGap, cfg.Suite = structs.ContactMonitoring, 0, pick(r, 1, 2, 2, 2)
	cfg.RMW = pick(r, uint64(100), 1000)
	w := newWorld(k, cfg)
	l, other := w.names[0], w.names[1]
	step := func() {
		w.setNow(w.now + uint64(r.Intn(int(cfg.RMW)/4)))
		if r.P(0.05) {
			w.advance()
		}
	}
	adds := func() (out []Add) {
		for i := pick(r, 0, 1, 1, 1, 2, 4); i > 0; i-- {
			out = append(out, Add{Label: l, Value: w.newValue()})
		}
		if r.P(0.3) {
			out = append(out, Add{Label: other, Value: w.newValue()})
		}
		return
	}
	w.MustMutate([]Add{{Label: other, Value: []byte("other")}}, nil)
	var clients []*p21Client
	p := &p21{k: k, w: w, l: l, kind: kind, bad: make(map[uint64]map[uint32]bool), m: &Mutator{r: r, cs: w.cs}}
	for i := r.Range(2, 24); i > 0; i-- {
		step()
		w.MustMutate(adds(), nil)
		if len(w.cur[string(l)]) == 0 {
			continue
		}
		if r.P(0.3) {
			clients = append(clients, &p21Client{p: p, cl: w.newClient()})
		}
		for _, c := range clients {
			if r.P(0.4) {
				c.search(l, true)
			}
			for r.P(0.4) {
				if !c.monitor() {
					break
				}
			}
		}
	}
	if len(w.cur[string(l)]) == 0 {
		k.Skip()
	}
	if len(clients) == 0 {
		clients = append(clients, &p21Client{p: p, cl: w.newClient()})
	}
	for _, c := range clients {
		if r.P(0.7) || len(clients) == 1 {
			c.search(l, true)
		}
	}
	// The log turns. The label's data stays as it was, so the server answers
	// as if nothing had happened.
	p.turn = w.n()
	victims := p.victims(clients)
	if len(victims) == 0 {
		k.Skip()
	}
	k.Logf("versions %v of %.20q are %s from entry %d on", victims, l, kind, p.turn)
	gone := false
	for i := r.Range(2, 24); i > 0; i-- {
		step()
		if i <= 3 && r.P(0.7) { // cover everything in the end
			w.setNow(w.now + cfg.RMW)
		}
		var add []prefix.Entry
		var remove [][]byte
		if want := kind != "blinking" || r.P(0.6); want != gone {
			for _, v := range victims {
				vrf, _ := w.vrfOf(l, v)
				old := prefix.Entry{VrfOutput: vrf, Commitment: w.commit(l, v, w.stored(l, v))}
				if want {
					remove = append(remove, vrf)
					if kind == "replaced" {
						old.Commitment = r.Bytes(32)
						add = append(add, old)
					}
				} else {
					add = append(add, old)
				}
			}
			gone = want
		}
		if kind == "superseded" && r.P(0.5) {
			// A new version, which exists, is what the server would like
			// clients to look at.
			idx := w.index(l)
			v := uint32(len(idx))
			val := w.newValue()
			add = append(add, w.putVersion(l, v, val))
			w.cur[string(l)] = append(w.cur[string(l)][:v:v], Ver{Value: val, Pos: w.n()})
			w.putIndex(l, append(idx, w.n()))
		}
		if gone {
			p.bad[w.n()] = make(map[uint32]bool)
			for _, v := range victims {
				p.bad[w.n()][v] = true
			}
		}
		w.evilAppend(w.now, add, remove)
		for _, c := range clients {
			if r.P(0.6) {
				// Some other search lets the client know the new tree.
				c.search(other, false)
			}
			if r.P(0.25) {
				c.search(l, false)
			}
			for r.P(0.6) {
				if !c.monitor() {
					break
				}
			}
			c.checkDuties()
		}
	}
	for _, c := range clients {
		c.search(other, false)
		for i := 0; i < 3 && c.monitor(); i++ {
		}
		c.checkDuties()
		c.final(victims)
	}
}

// victims picks versions that clients monitor.
func (p *p21) victims(clients []*p21Client) (out []uint32) {
	set := make(map[uint32]bool)
	for _, c := range clients {
		if s := c.cl.Label(p.l); s != nil {
			for i, e := range s.Contact {
				if i == len(s.Contact)-1 || p.k.R.P(0.4) {
					set[e.Version] = true
				}
			}
		}
	}
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) > 1 && p.k.R.P(0.5) {
		i := p.k.R.Intn(len(out))
		out = out[i : i+1]
	}
	return
}

type p21Client struct {
	p      *p21
	cl     *Client
	duties []duty // versions seen, with the log entry they must be monitored from
	failed bool   // some answer was rejected
	cover  bool   // a map entry was covered by an honest distinguished entry
}

// search performs a search. Before the turn, it must succeed.
func (c *p21Client) search(l []byte, honest bool) {
	r, w := c.p.k.R, c.p.w
	n := len(w.cur[string(l)])
	var ver *uint32
	target := uint32(n - 1)
	if r.P(0.5) {
		target = uint32(n - 1 - r.Intn(min(n, 5)))
		ver = &target
	}
	_, o := c.cl.Search(l, ver)
	if honest && !o.ok() {
		c.p.k.Fail("search: %v", o)
	}
	if o.err != nil && o.srv == nil {
		c.failed = true
	}
	if o.ok() && string(l) == string(c.p.l) {
		if pos := w.cur[string(l)][target].Pos; int64(pos) > int64(c.cl.dle()) {
			c.duties = append(c.duties, duty{pos, target})
		}
	}
}

// monitor performs one round of monitoring and reports whether there was
// something to do.
func (c *p21Client) monitor() bool {
	p, k, w, r := c.p, c.p.k, c.p.w, c.p.k.R
	if c.cl.size() == 0 || c.cl.dle() < 0 {
		return false
	}
	c.cl.st.only = p.l
	defer func() { c.cl.st.only = nil }()
	req, vf, err := c.cl.c.Monitor()
	check(err)
	if req == nil || reflect.ValueOf(req).IsNil() {
		return false
	}
	cr := req.(*structs.ContactMonitorRequest)
	entries := append([]structs.MonitorMapEntry(nil), cr.Entries...)
	// What has to be looked at, and what of it is bad.
	n := w.n()
	inspected, stops := p.inspected(entries, n)
	bad := 0
	for _, d := range inspected {
		if p.bad[d.pos][d.ver] {
			bad++
		}
	}
	how := pick(r, "plain", "plain", "subset", "altered", "altered")
	if n <= p.turn || p.turn == 0 {
		how = "plain"
	}
	sent := clonePtr(cr)
	if how == "subset" {
		how = p.subset(sent)
	}
	prover := &Prover{w: w}
	res, err := prover.ContactMonitor(sent)
	if err != nil {
		if how == "plain" {
			k.Fail("harness: server refused to answer: %v", err)
		}
		return true
	}
	if real, err := w.ContactMonitor(sent); err == nil && r.P(0.5) {
		res = real
	}
	if how == "altered" {
		raw, _ := enc(res)
		how += " " + p.m.Mutate(res)
		if out, err := enc(res); err == nil && string(out) == string(raw) {
			how = "plain"
		}
	}
	before := c.cl.st.clone()
	err = vf(res)
	k.Logf("monitoring %v at size %d, inspecting %v, %d bad, %s: %v", entries, n, inspected, bad, how, err)
	if err != nil {
		c.failed = true
		k.Assert(c.cl.st.equal(before), "rejected answer changed the stored state")
		k.Count("answers rejected", 1)
		if bad > 0 {
			k.Count("rejected because of what is missing", 1)
		} else if how == "plain" && n <= p.turn {
			k.Fail("answer of an honest server rejected: %v", err)
		}
	} else {
		k.Assert(bad == 0, "client accepted an answer (%s) to monitoring %v at size %d though of the log entries and versions to look at, %v, %d are missing or different", how, entries, n, inspected, bad)
		k.Count("answers accepted", 1)
		// Duties up to the distinguished log entries end.
		dle := c.cl.dle()
		var left []duty
		for _, d := range c.duties {
			if int64(d.pos) > int64(dle) {
				left = append(left, d)
			}
		}
		c.duties = left
		if stops {
			c.cover = true
		}
	}
	k.Eval("%s/%d/%d/%v/%v/%d/%s/%v", p.kind, n, p.turn, entries, inspected, bad, how, err == nil)
	return err == nil
}

// inspected is the list of log entries that monitoring a map has to look at, and
// for which version. It also tells whether any entry is covered.
func (p *p21) inspected(entries []structs.MonitorMapEntry, n uint64) (out []duty, stops bool) {
	dist := make(map[uint64]bool)
	for _, x := range refDistinguished(p.w.ts()[:n], p.w.cfg.RMW) {
		dist[x] = true
	}
	seen := make(map[uint64]bool)
	for i := len(entries) - 1; i >= 0; i-- {
		e := entries[i]
		if dist[e.Position] {
			stops = true
			continue
		}
		for _, y := range bstRightAncestors(e.Position, n) {
			if seen[y] {
				break
			}
			seen[y] = true
			out = append(out, duty{y, e.Version})
			if dist[y] {
				stops = true
				break
			}
		}
	}
	return
}

// subset makes a request that's easier to answer than the one made.
func (p *p21) subset(req *structs.ContactMonitorRequest) string {
	r := p.k.R
	if r.P(0.5) && len(req.Entries) > 0 {
		i := r.Intn(len(req.Entries))
		req.Entries = append(req.Entries[:i:i], req.Entries[i+1:]...)
		return "without an entry"
	}
	for i := range req.Entries {
		e := &req.Entries[i]
		if up := bstRightAncestors(e.Position, p.w.n()); len(up) > 0 && r.P(0.5) {
			e.Position = up[r.Intn(len(up))]
			return "from further on"
		}
		if e.Version > 0 && r.P(0.5) {
			e.Version--
			return "for a lesser version"
		}
	}
	return "plain"
}

// checkDuties makes sure that the client hasn't forgotten what it must monitor.
func (c *p21Client) checkDuties() {
	k := c.p.k
	var have []structs.MonitorMapEntry
	if s := c.cl.Label(c.p.l); s != nil {
		have = s.Contact
	}
	for _, d := range c.duties {
		ok := false
		for _, e := range have {
			ok = ok || e.Version >= d.ver
		}
		k.Assert(ok, "client has stopped to monitor version %d of log entry %d: monitors %v", d.ver, d.pos, have)
	}
}

// final makes sure that clients that saw what has vanished have noticed, if
// that's for good and distinguished log entries cover it.
func (c *p21Client) final(victims []uint32) {
	p := c.p
	if p.kind != "forgotten" && p.kind != "replaced" || c.failed {
		return
	}
	s := c.cl.Label(p.l)
	if s == nil {
		return
	}
	e := s.Contact[len(s.Contact)-1]
	for _, v := range victims {
		if v == e.Version && c.cl.size() == p.w.n() && c.cl.st.labels[string(p.l)].terminal <= uint64(max(c.cl.dle(), 0)) && c.cl.dle() >= 0 {
			p.k.Fail("client that monitors version %d, which is gone since %d, has not noticed in the end", v, p.turn)
		}
	}
}
