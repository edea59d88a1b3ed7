//go:build P19

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"

	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P19", Level: "exploration", Min: 10000,
		Rule: "responses to clients in all kinds of states that are honest ones altered field by field, byte by byte, or claiming tree sizes, positions and versions of any magnitude with everything else adapted to them (including correct VRF proofs, and honest trees of up to 2^62 entries), or of the wrong kind; an evaluation is one response verified, keyed by operation, mode, alteration and outcome",
		Run:  runP19,
	})
}

func runP19(c *Ctx) {
	c.Each("altered", c.N(220, 12000), func(k *Case) { p19Real(k, (*p19).alter) })
	c.Each("bytes", c.N(120, 6000), func(k *Case) { p19Real(k, (*p19).bytes) })
	c.Each("claims", c.N(220, 12000), func(k *Case) { p19Real(k, (*p19).claim) })
	c.Each("virtual", c.N(120, 6000), p19Virtual)
	c.Each("kinds", c.N(20, 200), p19Kinds)
}

// p19 watches a client while it verifies a hostile response.
type p19 struct {
	k    *Case
	w    *World
	m    *Mutator
	pool map[string][]any

	desc   string
	size   int
	before *CStore
	mem    runtime.MemStats
}

func newP19(k *Case, w *World) *p19 {
	return &p19{k: k, w: w, m: &Mutator{r: k.R, cs: w.cs}, pool: make(map[string][]any)}
}

// begin is called just before the response is verified.
func (p *p19) begin(st *CStore, res any) {
	raw, err := enc(res)
	if err != nil {
		raw = nil
	}
	p.size = len(raw)
	p.before = st.clone()
	runtime.ReadMemStats(&p.mem)
}

// end is called when it has been verified.
func (p *p19) end(kind string, st *CStore, err error) {
	var after runtime.MemStats
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - p.mem.TotalAlloc
	if used > 8<<20+5000*uint64(p.size) {
		p.k.Fail("verifying a %s response of %d bytes (%s) allocated %d bytes", kind, p.size, p.desc, used)
	}
	out := "accepted"
	if err != nil {
		out = "rejected"
		if !p.before.equal(st) {
			p.k.Fail("a %s response (%s) was rejected (%v), but changed what the client stores", kind, p.desc, err)
		}
	}
	p.k.Eval("%s/%s/%s/%s/%s", p.k.Name, kind, modeNames[p.w.cfg.Mode], p.desc, out)
	p.k.Count(out, 1)
	p.k.Logf("%s (%s): %v", kind, p.desc, err)
}

// p19Real lets clients of a real log perform operations, and alters responses.
func p19Real(k *Case, edit func(p *p19, o op, cl *Client, res any)) {
	r := k.R
	w := newWorld(k, genCfg(r))
	w.advance()
	w.MustMutate(nil, nil) // Versions of the first entry can't be in update streams.
	w.Grow(r.Range(1, 12))
	clients := w.actors()
	w.Grow(r.Intn(6))
	if r.P(0.3) {
		clients = append(clients, w.actors()...)
	}
	p := newP19(k, w)
	for i := 0; i < 20; i++ {
		cl := clients[r.Intn(len(clients))].clone()
		o := cl.randOp2()
		// What an honest server's answer leads to.
		ref := cl.clone()
		fw := w.Clone()
		want := ref.do(o, fw, tamper{seq: fw.stillSequencer, res: func(i int, res any) {
			n := reflect.TypeOf(res).String()
			p.pool[n] = append(p.pool[n], deepCopy(reflect.ValueOf(res)).Interface())
		}})
		if want.idle || want.srv != nil || len(want.responses) == 0 {
			continue
		}
		at := r.Intn(len(want.responses))
		hw := w.Clone()
		seen := false
		got := cl.do(o, hw, tamper{seq: hw.stillSequencer, res: func(i int, res any) {
			if i != at {
				return
			}
			seen = true
			p.m.Pool = p.pool[reflect.TypeOf(res).String()]
			edit(p, o, cl, res)
			p.begin(cl.st, res)
		}})
		if !seen {
			continue
		}
		kind := o.kind
		if at > 0 {
			kind += "+"
		}
		if got.srv != nil || len(got.responses) != at+1 {
			// The altered response was accepted and others followed.
			p.k.Count("accepted, followed by others", 1)
			continue
		}
		p.end(kind, cl.st, got.err)
		// Repeating the operation works.
		if got.err == nil || isNotFound(got.err) || at > 0 {
			continue
		}
		again := cl.clone().do(o, w.Clone2(), tamper{})
		if again.srv != nil || (again.err == nil) != (want.err == nil) || isNotFound(again.err) != isNotFound(want.err) {
			k.Fail("%s after a rejected response (%s): %v, instead of %v", o.kind, p.desc, again.outcome, want.outcome)
		}
	}
}

// Clone2 is Clone, for a world that will be used at the same time as others.
func (w *World) Clone2() *World { out := w.Clone(); out.use(); return out }

// randOp2 picks an operation that is possible for the client.
func (cl *Client) randOp2() op {
	if cl.size() > 0 && len(cl.w.cur) > 0 {
		return cl.randOp()
	}
	o := op{kind: pick(cl.w.r, "greatest", "fixed"), label: cl.w.names[cl.w.r.Intn(len(cl.w.names))]}
	o.ver = uint32(cl.w.r.Intn(len(cl.w.cur[string(o.label)]) + 1))
	return o
}

func (p *p19) alter(o op, cl *Client, res any) {
	raw, _ := enc(res)
	for i := 0; i < 10; i++ {
		p.desc = p.m.Mutate(res)
		if out, err := enc(res); err == nil && !bytes.Equal(out, raw) {
			return
		}
	}
}

// bytes alters the encoding of a response such that it still decodes.
func (p *p19) bytes(o op, cl *Client, res any) {
	r := p.k.R
	c := codecOf(res)
	raw := must(enc(res))
	for i := 0; i < 200; i++ {
		out := bytes.Clone(raw)
		for j := r.Range(1, 3); j > 0; j-- {
			at := r.Intn(len(out))
			switch r.Intn(4) {
			case 0:
				out[at] ^= 1 << r.Intn(8)
			case 1:
				out[at] = byte(pick(r, 0, 1, 2, 0xff, r.Intn(256)))
			case 2:
				n := min(len(out)-at, pick(r, 1, 2, 4, 8))
				copy(out[at:], bytes.Repeat([]byte{byte(pick(r, 0, 0xff))}, n))
			case 3:
				n := min(len(out)-at, r.Intn(40))
				out = append(out[:at:at], out[at+n:]...)
				if len(out) == 0 {
					out = []byte{0}
				}
			}
		}
		buf := bytes.NewBuffer(out)
		x, err := c.dec(p.w.pub, o.kind == "fixed", buf)
		if err != nil || buf.Len() != 0 || bytes.Equal(out, raw) {
			continue
		}
		p.desc = fmt.Sprintf("bytes %d", i2bucket(len(out)))
		reflect.ValueOf(res).Elem().Set(reflect.ValueOf(x).Elem())
		return
	}
	p.desc = "none"
}

func i2bucket(n int) int { return n / 256 }

func (p *p19) someU64(near ...uint64) uint64 {
	r := p.k.R
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return ^uint64(0) - uint64(r.Intn(3))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
	case 3:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return near[r.Intn(len(near))] + uint64(r.Intn(5)) - 2
}

func (p *p19) someU32(near ...uint32) uint32 {
	r := p.k.R
	switch r.Intn(6) {
	case 0:
		return uint32(r.Intn(4))
	case 1:
		return ^uint32(0) - uint32(r.Intn(3))
	case 2:
		return uint32(1)<<uint(r.Intn(32)) + uint32(r.Intn(5)) - 2
	case 3:
		return uint32(r.Uint64() >> uint(32+r.Intn(32)))
	}
	if len(near) == 0 {
		return 0
	}
	return near[r.Intn(len(near))] + uint32(r.Intn(5)) - 2
}

// ladder makes correct steps for some versions.
func (p *p19) ladder(label []byte, vers map[uint32]bool, no func(uint32) bool) []structs.BinaryLadderStep {
	var s []uint32
	for v := range vers {
		s = append(s, v)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return p.stepsOf(label, s, no)
}

func (p *p19) stepsOf(label []byte, vers []uint32, no func(uint32) bool) (out []structs.BinaryLadderStep) {
	for _, v := range vers {
		_, proof := p.w.vrfOf(label, v)
		st := structs.BinaryLadderStep{Proof: proof}
		if p.k.R.P(0.8) && (no == nil || !no(v)) {
			st.Commitment = p.k.R.Bytes(32)
		}
		out = append(out, st)
	}
	return
}

func proofOf(res any) (*structs.FullTreeHead, *structs.CombinedTreeProof) {
	switch res := res.(type) {
	case *structs.SearchResponse:
		return &res.FullTreeHead, &res.Search
	case *structs.ContactMonitorResponse:
		return &res.FullTreeHead, &res.Monitor
	case *structs.OwnerInitResponse:
		return &res.FullTreeHead, &res.Init
	case *structs.OwnerMonitorResponse:
		return &res.FullTreeHead, &res.Monitor
	case *structs.UpdateResponse:
		return &res.FullTreeHead, &res.Update
	}
	panic("harness: not a response")
}

// claim makes a response state things of any magnitude.
func (p *p19) claim(o op, cl *Client, res any) {
	r := p.k.R
	p.desc = ""
	fth, proof := proofOf(res)
	if r.P(0.6) {
		p.claimSize(cl, fth, proof)
	}
	if r.P(0.3) {
		// Very many of everything that the format has room for.
		p.desc += " many"
		if len(proof.PrefixProofs) > 0 {
			for n := r.Intn(200); n > 0 && len(proof.PrefixProofs) < 255; n-- {
				proof.PrefixProofs = append(proof.PrefixProofs, proof.PrefixProofs[r.Intn(len(proof.PrefixProofs))])
			}
		}
		if n := r.Intn(3) * 120; n > 0 {
			last := uint64(0)
			if len(proof.Timestamps) > 0 {
				last = proof.Timestamps[len(proof.Timestamps)-1]
			}
			for len(proof.Timestamps) < n {
				proof.Timestamps = append(proof.Timestamps, last)
			}
		}
		for n := r.Intn(3) * 120; len(proof.PrefixRoots) < n; {
			proof.PrefixRoots = append(proof.PrefixRoots, r.Bytes(32))
		}
		for n := r.Intn(2) * r.Intn(3000); len(proof.Inclusion.Elements) < n; {
			proof.Inclusion.Elements = append(proof.Inclusion.Elements, proof0)
		}
	}
	switch res := res.(type) {
	case *structs.SearchResponse:
		if o.kind == "greatest" && r.P(0.7) {
			v := p.someU32(*res.Version)
			p.desc += " version"
			res.Version = &v
			res.BinaryLadder = p.stepsOf(o.label, math.SearchBinaryLadder(v, v, nil, nil), func(x uint32) bool { return x == v })
		}
	case *structs.OwnerInitResponse:
		if r.P(0.7) {
			n := pick(r, 0, 1, len(res.GreatestVersions), len(res.GreatestVersions)+1, r.Intn(200))
			p.desc += fmt.Sprintf(" %d versions", min(n, 4))
			vers := make([]uint32, n)
			set := map[uint32]bool{0: true}
			for i := range vers {
				vers[i] = p.someU32(res.GreatestVersions...)
			}
			if r.P(0.8) {
				sort.Slice(vers, func(i, j int) bool { return vers[i] > vers[j] })
			}
			if n > 20 { // keep the ladder short
				for i := range vers {
					vers[i] = vers[0]
				}
			}
			for _, v := range vers {
				for _, x := range math.SearchBinaryLadder(v, v, nil, nil) {
					set[x] = true
				}
			}
			res.GreatestVersions = vers
			res.BinaryLadder = p.ladder(o.label, set, nil)
		}
	case *structs.UpdateResponse:
		if r.P(0.5) {
			p.desc += " position"
			n := p.w.n()
			res.Position = p.someU64(n, n-1, res.Position)
		}
		if r.P(0.6) && len(res.Info) > 0 {
			n := pick(r, 1, 2, len(res.Info)+1, len(res.Info)+r.Intn(40))
			p.desc += fmt.Sprintf(" %d infos", min(n, 4))
			for len(res.Info) < n {
				res.Info = append(res.Info, res.Info[r.Intn(len(res.Info))])
			}
			res.Info = res.Info[:n]
			vals := res.Values
			if len(vals) == 0 {
				vals = []structs.LabelValue{{Value: []byte("x")}}
			}
			for len(vals) < n {
				vals = append(vals, vals[0])
			}
			res.Values = vals[:n]
			start := 0
			if s := cl.Label(o.label); s != nil && s.Owner != nil {
				start = s.Owner.VerAtStarting + len(s.Owner.UpcomingVers) + 1
			}
			res.BinaryLadder = p.updateLadder(o.label, start, n)
		}
	}
}

var proof0 = make([]byte, 32)

// updateLadder makes the steps of an update that creates n versions.
func (p *p19) updateLadder(label []byte, start, n int) []structs.BinaryLadderStep {
	end := uint32(start + n - 1)
	set := make(map[uint32]bool)
	for _, x := range math.SearchBinaryLadder(end, end, nil, nil) {
		set[x] = true
	}
	for x := uint32(start); x < end; x++ {
		set[x] = true
	}
	if start == 0 {
		delete(set, 0)
	} else {
		for _, x := range math.SearchBinaryLadder(uint32(start-1), uint32(start-1), nil, nil) {
			delete(set, x)
		}
	}
	return p.ladder(label, set, func(x uint32) bool { return x >= uint32(start) })
}

// claimSize makes a response be about a tree of another size, and adapts the
// number of timestamps and other elements to it.
func (p *p19) claimSize(cl *Client, fth *structs.FullTreeHead, proof *structs.CombinedTreeProof) {
	r := p.k.R
	m, n := cl.size(), p.w.n()
	size := p.someU64(m, n)
	p.desc += fmt.Sprintf(" size %d", sizeClass(size, m, n))
	if r.P(0.15) {
		fth.TreeHead = nil
		p.desc += " same"
	} else {
		sig := r.Bytes(64)
		if fth.TreeHead != nil && r.P(0.5) {
			sig = fth.TreeHead.Signature
		}
		fth.TreeHead = &structs.TreeHead{TreeSize: size, Signature: sig}
	}
	if p.w.cfg.Mode == structs.ThirdPartyAuditing && fth.TreeHead != nil && r.P(0.9) {
		if fth.AuditorTreeHead == nil || r.P(0.5) {
			fth.AuditorTreeHead = &structs.AuditorTreeHead{Timestamp: p.someU64(p.w.now), TreeSize: p.someU64(m, n, size), Signature: r.Bytes(64)}
			p.desc += " auditor"
		}
	} else if r.P(0.95) {
		fth.AuditorTreeHead = nil
	}
	if size == 0 || m > size {
		return
	}
	var mp *uint64
	if m > 0 {
		mp = &m
	}
	count := len(math.UpdateView(size, mp))
	if fth.TreeHead == nil {
		count = 0
	}
	count += r.Intn(6) * r.Intn(20)
	count = max(0, count+pick(r, 0, 0, 0, 0, -1, 1))
	// Timestamps that the client can't object to at once.
	lo := uint64(0)
	if s := cl.State(); s != nil {
		for _, e := range s.LogEntries {
			lo = max(lo, e.Timestamp)
		}
	}
	ts := make([]uint64, count)
	x := lo + uint64(r.Intn(3))*p.w.cfg.RMW
	for i := range ts {
		ts[i] = x
		if r.P(0.3) {
			x += uint64(r.Intn(int(p.w.cfg.RMW) + 2))
		}
	}
	if r.P(0.1) {
		for i := range ts {
			ts[i] = p.someU64(lo)
		}
	}
	proof.Timestamps = ts[:min(len(ts), 255)]
	for n := r.Intn(3) * r.Intn(60); len(proof.PrefixRoots) < n; {
		proof.PrefixRoots = append(proof.PrefixRoots, r.Bytes(32))
	}
	for n := r.Intn(3) * r.Intn(80); len(proof.Inclusion.Elements) < n; {
		proof.Inclusion.Elements = append(proof.Inclusion.Elements, r.Bytes(32))
	}
	if pps := p.proofPool(); len(pps) > 0 && r.P(0.5) {
		for n := r.Intn(40); len(proof.PrefixProofs) < n; {
			proof.PrefixProofs = append(proof.PrefixProofs, pps[r.Intn(len(pps))].PrefixProofs...)
			if len(proof.PrefixProofs) == 0 {
				break
			}
		}
		proof.PrefixProofs = proof.PrefixProofs[:min(len(proof.PrefixProofs), 255)]
	}
}

// proofPool are the proofs of some responses.
func (p *p19) proofPool() []*structs.CombinedTreeProof {
	var out []*structs.CombinedTreeProof
	for _, kind := range sortedKeys(p.pool) {
		for _, x := range p.pool[kind] {
			if _, proof := proofOf(x); len(proof.PrefixProofs) > 0 {
				out = append(out, proof)
			}
		}
	}
	return out
}

func sizeClass(x, m, n uint64) int {
	switch {
	case x == 0:
		return 0
	case x < m:
		return 1
	case x == m:
		return 2
	case x < n:
		return 3
	case x == n:
		return 4
	case x < n+4:
		return 5
	case x < 1<<32:
		return 6
	case x < 1<<62:
		return 7
	case x <= 1<<63:
		return 8
	}
	return 9
}

// p19Virtual alters responses about trees of any size, labels of any number of
// versions.
func p19Virtual(k *Case) {
	r := k.R
	v := genVirtual(k, true)
	p := newP19(k, v.w)
	clients := []*vClient{v.newClient()}
	// Clients that are already in some state.
	for i := r.Intn(5); i > 0; i-- {
		c := clients[r.Intn(len(clients))]
		l := v.names[r.Intn(len(v.names))]
		c.search(l, v.someVersion(l), nil)
		if r.P(0.5) && c.cl.Label(l) == nil {
			c.init(l, nil)
		}
		if r.P(0.5) {
			v.publish(v.someSize())
		}
		if r.P(0.5) {
			clients = append(clients, v.newClient())
		}
	}
	if r.P(0.5) {
		v.publish(v.someSize())
	}
	for i := 0; i < 12; i++ {
		c0 := clients[r.Intn(len(clients))]
		c := &vClient{v, c0.cl.clone()}
		l := v.names[r.Intn(len(v.names))]
		seen := false
		var o op
		hook := func(res any) {
			seen = true
			n := reflect.TypeOf(res).String()
			p.pool[n] = append(p.pool[n], deepCopy(reflect.ValueOf(res)).Interface())
			p.m.Pool = p.pool[n]
			switch r.Intn(3) {
			case 0:
				p.alter(o, c.cl, res)
			case 1:
				p.bytes(o, c.cl, res)
			case 2:
				o.label = l
				p.claimVirtual(o, c.cl, v, res)
			}
			p.begin(c.cl.st, res)
		}
		var out outcome
		switch r.Intn(4) {
		case 0:
			ver := v.someVersion(l)
			o.kind = "fixed"
			if ver == nil {
				o.kind = "greatest"
			}
			_, out = c.search(l, ver, func(res *structs.SearchResponse) { hook(res) })
		case 1:
			o.kind = "init"
			out = c.init(l, func(res *structs.OwnerInitResponse) { hook(res) })
		case 2:
			o.kind = "monitor"
			_, out = c.monitor(l, hook)
		case 3:
			o.kind = "update"
			out = p.virtualUpdate(c, l, &seen)
		}
		if seen && out.srv == nil {
			p.end(o.kind, c.cl.st, out.err)
		}
	}
}

func (p *p19) claimVirtual(o op, cl *Client, v *Virtual, res any) {
	p.claim(o, cl, res)
}

// virtualUpdate makes up an answer to an update by an owner.
func (p *p19) virtualUpdate(c *vClient, label []byte, seen *bool) (out outcome) {
	r := p.k.R
	s := c.cl.Label(label)
	if s == nil || s.Owner == nil {
		return
	}
	var vals [][]byte
	for i := r.Range(1, 3); i > 0; i-- {
		vals = append(vals, r.Bytes(3))
	}
	_, sv, err := c.cl.c.Update(label, vals)
	if err != nil {
		return outcome{srv: err}
	}
	res := &structs.UpdateResponse{}
	m := c.cl.size()
	proof := structs.CombinedTreeProof{}
	p.desc = "made up"
	p.claimSize(c.cl, &res.FullTreeHead, &proof)
	res.Update = proof
	res.Position = p.someU64(m, c.v.n, s.Owner.Starting)
	start := s.Owner.VerAtStarting + len(s.Owner.UpcomingVers) + 1
	for range vals {
		res.Info = append(res.Info, structs.UpdateInfo{Opening: r.Bytes(16)})
	}
	if p.w.cfg.Mode == structs.ThirdPartyManagement {
		for i, val := range vals {
			res.Info[i].Signature = p.w.signLeaf(label, uint32(start+i), val)
		}
	}
	res.BinaryLadder = p.updateLadder(label, start, len(vals))
	*seen = true
	p.begin(c.cl.st, res)
	return outcome{err: sv.Verify(res)}
}

// p19Kinds hands clients responses of the wrong kind.
func p19Kinds(k *Case) {
	r := k.R
	w := newWorld(k, genCfg(r))
	w.Grow(r.Range(2, 12))
	for _, cl := range w.actors() {
		if cl.size() == 0 || cl.dle() < 0 {
			continue
		}
		for _, x := range []structs.Marshaller{nil, &structs.SearchResponse{}, &structs.OwnerInitResponse{}, &structs.UpdateResponse{}, &structs.ContactMonitorResponse{}, &structs.OwnerMonitorResponse{}, &structs.TreeHead{}} {
			c := cl.clone()
			req, vf, err := c.c.Monitor()
			if err != nil || req == nil || reflect.ValueOf(req).IsNil() {
				continue
			}
			before := c.st.clone()
			err = vf(x)
			_, contact := x.(*structs.ContactMonitorResponse)
			_, owner := x.(*structs.OwnerMonitorResponse)
			_, wantContact := req.(*structs.ContactMonitorRequest)
			if err == nil && !(contact && wantContact || owner && !wantContact) {
				k.Fail("a client accepts a %T in response to a %T", x, req)
			}
			if err != nil {
				k.Assert(before.equal(c.st), "a rejected response changed what the client stores")
			}
			k.Eval("kinds/%T/%T/%v", req, x, err == nil)
		}
	}
}
