//go:build P30

package main

import (
	"bytes"
	"fmt"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P30", Level: "exploration", Min: 4000,
		Rule: "every operation of clients of a log in third-party auditing mode, answered with auditor tree heads that are honest, late, early, stale, for any size, over another tree, signed by others, for other configurations or altered; the verdict of the client is compared with the conditions an auditor tree head has to meet, and the state it retains with the head it was given; an evaluation is one response given to a client, keyed by operation, alteration and verdict",
		Run:  runP30,
	})
}

func runP30(c *Ctx) {
	c.Each("heads", c.N(260, 4000), p30Heads)
	c.Each("virtual", c.N(200, 4000), p30Virtual)
	c.Each("fork", c.N(120, 2000), p30Fork)
	c.Each("start", c.N(100, 1500), p30Start)
	c.Each("absent", c.N(120, 2000), p30Absent)
	c.Each("history", c.N(50, 800), p30History)
}

// p30Log is what a head may be about.
type p30Log struct {
	w    *World
	n    uint64
	ts   func(x uint64) uint64
	root func(n uint64) []byte
}

func (w *World) p30() p30Log {
	return p30Log{w, w.n(), func(x uint64) uint64 { return w.hist[x].Ts }, func(n uint64) []byte { return refLogRoot(w.leaves(n)) }}
}

// p30Spec says how an auditor tree head is made for a log of some size.
type p30Spec struct {
	size, ts, root, key, cfg, after string
	a, b                            uint64
	stranger                        suites.SigningPrivateKey
}

func (s p30Spec) String() string {
	return fmt.Sprintf("size %s, timestamp %s, root %s, key %s, config %s, afterwards %s", s.size, s.ts, s.root, s.key, s.cfg, s.after)
}

func p30GenSpec(w *World) p30Spec {
	r := w.r
	s := p30Spec{size: "some", ts: "own", root: "true", key: "auditor", cfg: "true", after: "nothing", a: r.Uint64(), b: r.Uint64()}
	s.size = pick(r, "full", "some", "some", "near", "one")
	s.ts = pick(r, "own", "own", "rightmost", "lag", "between")
	switch r.Intn(10) {
	case 0, 1:
		s.ts = pick(r, "newer", "newest", "beyond lag", "beyond lag", "zero", "between")
	case 2:
		s.root = pick(r, "other size", "random", "empty")
	case 3:
		s.key = pick(r, "log", "stranger")
		if s.key == "stranger" {
			s.stranger = genSigningKey(r, w.cs)
		}
	case 4:
		s.cfg = pick(r, "lag", "start", "ahead", "window", "auditor")
	case 5, 6:
		s.after = pick(r, "flip", "cut", "grow", "none", "tree head", "later", "earlier", "bigger", "smaller")
	case 7:
		s.size = pick(r, "zero", "beyond", "far", "max", "full")
	}
	return s
}

// make makes the head. good says whether it is signed by the auditor over the
// first entries of the log.
func (s p30Spec) make(l p30Log) (head *structs.AuditorTreeHead, good bool) {
	w, n := l.w, l.n
	good = true
	size := n
	switch s.size {
	case "some":
		size = 1 + s.a%n
	case "near":
		size = n - min(n-1, s.a%4)
	case "one":
		size = 1
	case "zero":
		size = 0
	case "beyond":
		size = n + 1 + s.a%3
	case "far":
		size = 1 << (40 + s.a%24)
	case "max":
		size = ^uint64(0)
	}
	within := size >= 1 && size <= n
	last := l.ts(n - 1)
	ts := last
	lag := w.cfg.Lag
	switch s.ts {
	case "own":
		if within {
			ts = l.ts(size - 1)
		}
	case "lag":
		ts = last - min(last, lag)
	case "between":
		if x := min(last, lag); x > 0 {
			ts = last - s.b%x
		}
	case "beyond lag":
		if lag < last {
			ts = last - lag - 1 - min(last-lag-1, s.b%3)
		} else {
			ts = 0
		}
	case "newer":
		ts = last + 1 + s.b%3
	case "newest":
		ts = ^uint64(0)
	case "zero":
		ts = 0
	}
	var root []byte
	if within {
		root = l.root(size)
	} else {
		root, good = make([]byte, w.cs.HashSize()), false
	}
	switch s.root {
	case "other size":
		if o := 1 + s.b%n; o != size {
			root, good = l.root(o), false
		}
	case "random":
		root, good = append([]byte{byte(s.b)}, make([]byte, w.cs.HashSize()-1)...), false
	case "empty":
		root, good = nil, false
	}
	key := w.audKey
	switch s.key {
	case "log":
		key, good = w.priv.SignatureKey, false
	case "stranger":
		key, good = s.stranger, false
	}
	pub := *w.pub
	switch s.cfg {
	case "lag":
		pub.MaxAuditorLag ^= 1 + s.b%8
	case "start":
		pub.AuditorStartPos ^= 1 + s.b%8
	case "ahead":
		pub.MaxAhead++
	case "window":
		pub.ReasonableMonitoringWindow++
	case "auditor":
		pub.AuditorPublicKey = pub.SignatureKey
	}
	good = good && s.cfg == "true"
	tbs := mustMarshal(&structs.AuditorTreeHeadTBS{Config: &pub, Timestamp: ts, TreeSize: size, Root: root})
	head = &structs.AuditorTreeHead{Timestamp: ts, TreeSize: size, Signature: must(key.Sign(tbs))}
	sig := head.Signature
	switch s.after {
	case "flip":
		sig[s.b%uint64(len(sig))] ^= 1 << (s.a % 8)
	case "cut":
		head.Signature = sig[:uint64(len(sig))-1-s.b%3]
	case "grow":
		head.Signature = append(sig, byte(s.b))
	case "none":
		head.Signature = nil
	case "tree head":
		head.Signature = must(w.audKey.Sign(mustMarshal(&structs.TreeHeadTBS{Config: w.pub, TreeSize: size, Root: root})))
	case "later":
		head.Timestamp++
	case "earlier":
		head.Timestamp--
	case "bigger":
		head.TreeSize++
	case "smaller":
		head.TreeSize--
	}
	good = good && s.after == "nothing"
	return
}

// acceptable says whether a client may accept the head.
func p30Acceptable(l p30Log, n uint64, head *structs.AuditorTreeHead, good bool, state *structs.ClientState) (bool, string) {
	last := l.ts(n - 1)
	switch {
	case state != nil && state.AuditorTreeHead.TreeSize < l.w.pub.AuditorStartPos:
		return false, "the retained head does not reach the start position"
	case head.TreeSize < 1 || head.TreeSize > n:
		return false, "impossible size"
	case head.Timestamp > last:
		return false, "newer than the tree"
	case last-head.Timestamp > l.w.pub.MaxAuditorLag:
		return false, "too far behind"
	case !good:
		return false, "not vouched for"
	}
	return true, "acceptable"
}

func p30Cfg(k *Case) WorldCfg {
	cfg := genCfg(k.R)
	cfg.Mode = structs.ThirdPartyAuditing
	cfg.Lag = pick(k.R, uint64(0), 1, cfg.RMW, 3*cfg.RMW, 1000, huge, ^uint64(0))
	cfg.AudGap = 0
	return cfg
}

func fthOf(res any) *structs.FullTreeHead {
	switch res := res.(type) {
	case *structs.SearchResponse:
		return &res.FullTreeHead
	case *structs.ContactMonitorResponse:
		return &res.FullTreeHead
	case *structs.OwnerInitResponse:
		return &res.FullTreeHead
	case *structs.OwnerMonitorResponse:
		return &res.FullTreeHead
	case *structs.UpdateResponse:
		return &res.FullTreeHead
	}
	panic("harness: unexpected response")
}

func decided(o outcome) bool {
	return o.srv == nil && (o.err == nil || isNotFound(o.err) || isExpired(o.err))
}

// heads: one client, one operation, one auditor tree head.
func p30Heads(k *Case) {
	r := k.R
	w := newWorld(k, p30Cfg(k))
	// The clients get their states from honest heads.
	w.Grow(r.Range(1, 10))
	clients := w.actors()
	if r.P(0.8) {
		w.Grow(r.Range(1, 4))
	}
	for try := 0; try < 8; try++ {
		cl := clients[r.Intn(len(clients))]
		o := cl.randOp()
		control := w.Clone()
		c1 := cl.clone()
		if out := c1.do(o, control, tamper{seq: control.stillSequencer}); out.idle || !decided(out.outcome) {
			continue
		}
		k.Count("operations", 1)
		for i := 0; i < 4; i++ {
			spec := p30GenSpec(w)
			p30Try(k, w, cl, o, spec, r.P(0.25))
		}
	}
}

// p30Try performs an operation on a log whose auditor makes heads as specified.
// If wire is set, the log answers with an honest auditor tree head which is
// replaced on its way.
func p30Try(k *Case, w *World, cl *Client, o op, spec p30Spec, wire bool) {
	srv, c2 := w.Clone(), cl.clone()
	what := fmt.Sprintf("%s by a client at %d of a log of size %d, auditor tree head: %v", o.kind, cl.size(), w.n(), spec)
	if !wire {
		srv.headFor = func(w *World) *structs.AuditorTreeHead {
			h, _ := spec.make(w.p30())
			return h
		}
		srv.publish()
	}
	type verdict struct {
		ok, exact bool
		why       string
		head      *structs.AuditorTreeHead
		before    []byte
	}
	var seen []verdict
	out := c2.do(o, srv, tamper{seq: srv.stillSequencer, res: func(i int, res any) {
		fth := fthOf(res)
		v := verdict{ok: true, exact: true, why: "unchanged", before: bytes.Clone(c2.st.state)}
		if fth.TreeHead != nil {
			n := fth.TreeHead.TreeSize
			l := srv.p30()
			l.n = n
			h, good := spec.make(l)
			v.exact = !wire || h.TreeSize == fth.AuditorTreeHead.TreeSize
			fth.AuditorTreeHead = h
			v.ok, v.why = p30Acceptable(l, n, h, good, c2.State())
			v.head = h
		}
		seen = append(seen, v)
	}})
	if out.srv != nil {
		k.Count("log could not answer", 1)
		k.Assert(c2.st.equal(cl.st) || out.verified > 0, "%s: state changed without a response", what)
		return
	}
	if out.idle {
		return
	}
	for i, v := range seen {
		accepted := i < out.verified || isNotFound(out.err) || isExpired(out.err)
		if accepted {
			k.Assert(v.ok, "%s: response %d was accepted although the auditor tree head is not acceptable (%s)", what, i, v.why)
		} else if v.ok && v.exact {
			k.Fail("%s: response %d with an acceptable auditor tree head was rejected: %v", what, i, out.err)
		}
		k.Eval("%s new=%t wire=%t %v: %s %t", o.kind, cl.size() == 0, wire, spec, v.why, accepted)
		if accepted {
			k.Count("accepted", 1)
		} else {
			k.Count("rejected", 1)
		}
	}
	if len(seen) == 0 {
		return
	}
	last := seen[len(seen)-1]
	if out.verified == 0 {
		k.Assert(c2.st.equal(cl.st), "%s: a rejected response changed the state of the client", what)
	} else if out.err != nil {
		k.Assert(bytes.Equal(c2.st.state, last.before), "%s: the rejected response %d changed the state of the client", what, len(seen)-1)
	} else {
		p30Retained(k, srv, c2, cl, last.head, what)
	}
}

// p30Retained checks that the client retains the given auditor tree head, or
// the one it had if there was none.
func p30Retained(k *Case, srv *World, c2, cl *Client, head *structs.AuditorTreeHead, what string) {
	if head == nil && c2.size() == cl.size() {
		k.Assert(cl.State() != nil, "%s: a client without state accepted a response without tree heads", what)
		head = cl.State().AuditorTreeHead
		k.Count("heads kept", 1)
	}
	if head != nil {
		got := c2.State().AuditorTreeHead
		k.Assert(got != nil && got.Timestamp == head.Timestamp && got.TreeSize == head.TreeSize && bytes.Equal(got.Signature, head.Signature), "%s: the client retains another auditor tree head than it was given", what)
	}
	c2.w = srv
	c2.checkState()
}

func p30Virtual(k *Case) {
	r := k.R
	v := genVirtual(k, false)
	w := v.w
	if w.cfg.Mode != structs.ThirdPartyAuditing {
		// The mode is not a parameter of genVirtual.
		w.cfg.Mode, w.leafKey, w.priv.LeafPublicKey = structs.ThirdPartyAuditing, nil, nil
		w.audKey = genSigningKey(r, w.cs)
		w.priv.Mode, w.priv.AuditorPublicKey = structs.ThirdPartyAuditing, w.audKey.Public()
	}
	last := v.epochs[len(v.epochs)-1].ts
	w.cfg.Lag = pick(r, uint64(0), 1, w.cfg.RMW, 3*w.cfg.RMW, last, last/2, huge, ^uint64(0))
	w.priv.MaxAuditorLag = w.cfg.Lag
	w.pub = w.priv.Public()
	v.publish(v.n)
	c := v.newClient()
	var labels [][]byte
	for l := range v.epochs[0].set {
		labels = append(labels, []byte(l))
	}
	sortBytes(labels)
	retained := uint64(0)
	for step := 0; step < 10; step++ {
		if step > 0 && r.P(0.7) {
			v.publish(pick(r, v.nextSize(), v.someSize()))
		}
		l := p30Log{w, v.n, func(x uint64) uint64 { return v.epoch(x).ts }, v.root}
		label := labels[r.Intn(len(labels))]
		for i := 0; i < 3; i++ {
			spec := p30GenSpec(w)
			h, good := spec.make(l)
			if h.TreeSize >= 1 && h.TreeSize <= v.n {
				v.audN = h.TreeSize
			}
			v.head = h
			state := c.cl.State()
			ok, why := p30Acceptable(l, v.n, h, good, state)
			same := state != nil && state.TreeHead.TreeSize == v.n
			if same {
				ok, why = true, "unchanged"
			}
			before := c.cl.st.clone()
			ver := v.someVersion(label)
			res, out := c.search(label, ver, nil)
			if out.srv != nil {
				continue
			}
			what := fmt.Sprintf("search at a virtual log of size %d by a client at %d, auditor tree head of size %d: %v", v.n, retained, h.TreeSize, spec)
			k.Assert((res.FullTreeHead.TreeHead == nil) == same, "harness: unexpected kind of tree head")
			accepted := decided(out)
			if accepted {
				k.Assert(ok, "%s: was accepted although the auditor tree head is not acceptable (%s)", what, why)
			} else {
				k.Assert(!ok, "%s: an acceptable auditor tree head was rejected: %v", what, out.err)
			}
			k.Eval("virtual search new=%t %v: %s %t", state == nil, spec, why, accepted)
			k.Count("virtual responses", 1)
			if out.err != nil {
				k.Assert(c.cl.st.equal(before), "%s: was not accepted but changed the state of the client", what)
				continue
			}
			retained = v.n
			got, want := c.cl.State().AuditorTreeHead, h
			if same {
				want = state.AuditorTreeHead
			}
			k.Assert(got != nil && got.Timestamp == want.Timestamp && got.TreeSize == want.TreeSize && bytes.Equal(got.Signature, want.Signature), "%s: the client retains another auditor tree head than it was given", what)
			c.checkState()
		}
		v.head = nil
	}
}

// fork: the log forks, but its auditor follows one side only.
func p30Fork(k *Case) {
	r := k.R
	cfg := p30Cfg(k)
	w := newWorld(k, cfg)
	w.Grow(r.Range(1, 8))
	early := w.actors()
	if r.P(0.5) {
		w.Grow(r.Range(1, 3))
	}
	d := w.n()
	evil := w.Clone()
	for i := r.Range(1, 4); i > 0; i-- {
		evil.MustMutate([]Add{{Label: evil.names[r.Intn(len(evil.names))], Value: evil.newValue()}}, nil)
		if r.P(0.6) {
			evil.advance()
		}
	}
	w.use()
	for i := r.Range(0, 4); i > 0; i-- {
		w.MustMutate([]Add{{Label: w.names[r.Intn(len(w.names))], Value: w.newValue()}}, nil)
		if r.P(0.6) {
			w.advance()
		}
	}
	for i := 0; i < 8; i++ {
		cl := early[r.Intn(len(early))].clone()
		o := cl.randOp()
		if o.kind == "update" {
			continue
		}
		cl.w = evil
		evil.setNow(max(evil.now, w.now))
		honest := cl.clone()
		if out := honest.do(o, evil, tamper{}); out.idle || !decided(out.outcome) {
			continue
		}
		size := min(max(1, d-min(d, 2)+uint64(r.Intn(4))), w.n(), evil.n())
		head := w.auditorHead(size)
		good := size <= d
		srv := evil.Clone()
		srv.publishHead(head)
		ok, why := p30Acceptable(srv.p30(), srv.n(), head, good, cl.State())
		c2 := cl.clone()
		if cl.size() == srv.n() {
			continue
		}
		out := c2.do(o, srv, tamper{})
		what := fmt.Sprintf("%s by a client at %d of a log of size %d that forked at %d, auditor tree head of size %d", o.kind, cl.size(), srv.n(), d, size)
		if out.srv != nil {
			k.Fail("%s: %v", what, out.srv)
		}
		if decided(out.outcome) {
			k.Assert(ok, "%s: was accepted although the auditor tree head is not acceptable (%s)", what, why)
		} else {
			k.Assert(!ok, "%s: an acceptable auditor tree head was rejected: %v", what, out.err)
			k.Assert(c2.st.equal(cl.st), "%s: a rejected response changed the state of the client", what)
		}
		if out.err == nil {
			p30Retained(k, srv, c2, cl, head, what)
		}
		k.Eval("fork %s new=%t %s %t", o.kind, cl.size() == 0, why, ok)
		k.Count("heads of the other side of a fork", 1)
	}
}

// start: the configuration changes to one with another start position, and
// maybe another auditor.
func p30Start(k *Case) {
	r := k.R
	cfg := p30Cfg(k)
	cfg.Lag = huge
	w := newWorld(k, cfg)
	w.Grow(r.Range(1, 8))
	// Clients come with all kinds of auditor tree heads.
	type old struct {
		cl  *Client
		aud uint64
	}
	var clients []old
	for i := 0; i < 3; i++ {
		w.publishSize(uint64(r.Range(1, int(w.n()))))
		w.audSize = 0
		cl := w.newClient()
		for j := 0; j < 5 && cl.size() == 0; j++ {
			cl.do(op{kind: "greatest", label: w.names[r.Intn(len(w.names))]}, w, tamper{})
		}
		if cl.dle() >= 0 && r.P(0.5) {
			cl.OwnerInit(w.names[r.Intn(len(w.names))])
		}
		aud := uint64(0)
		if s := cl.State(); s != nil {
			aud = s.AuditorTreeHead.TreeSize
		}
		clients = append(clients, old{cl, aud})
		if r.P(0.5) {
			w.Grow(1)
			w.audSize = 0
		}
	}
	if r.P(0.5) {
		w.audKey = genSigningKey(r, w.cs)
		w.priv.AuditorPublicKey = w.audKey.Public()
	}
	w.cfg.AudPos = pick(r, clients[r.Intn(len(clients))].aud+uint64(r.Intn(3)), w.n(), 0, uint64(r.Range(0, int(w.n())+3)), ^uint64(0))
	w.cfg.AudPos -= min(w.cfg.AudPos, uint64(r.Intn(2)))
	w.priv.AuditorStartPos = w.cfg.AudPos
	w.pub = w.priv.Public()
	w.audSize = 0
	w.reload()
	w.Grow(1)
	for _, c := range clients {
		cl := &Client{w, c.cl.st, must(transparency.NewClient(w.pub, c.cl.st))}
		for i := 0; i < 3; i++ {
			o := cl.randOp()
			if o.kind == "update" && cl.size() == 0 {
				continue
			}
			srv := w.Clone()
			srv.publishSize(uint64(r.Range(1, int(w.n()))))
			head := srv.auditorHead(srv.audSize)
			// Signatures need not be deterministic.
			srv.publishHead(head)
			c2 := cl.clone()
			out := c2.do(o, srv, tamper{seq: srv.refuse})
			if out.srv != nil || out.idle || len(out.responses) == 0 {
				continue
			}
			covered := cl.size() == 0 || c.aud >= w.cfg.AudPos
			what := fmt.Sprintf("%s by a client at %d of a log of size %d with start position %d, retained auditor tree head of size %d, new one of size %d", o.kind, cl.size(), w.n(), w.cfg.AudPos, c.aud, head.TreeSize)
			if decided(out.outcome) {
				k.Assert(covered, "%s: was accepted although the retained head does not reach the start position", what)
				if out.err == nil && out.verified == len(out.responses) {
					p30Retained(k, srv, c2, cl, head, what)
				}
			} else {
				k.Assert(!covered, "%s: was rejected: %v", what, out.err)
				k.Assert(c2.st.equal(cl.st), "%s: a rejected response changed the state of the client", what)
			}
			k.Eval("start %s new=%t %t", o.kind, cl.size() == 0, covered)
			k.Count("start positions", 1)
		}
	}
}

// absent: auditor tree heads are left out or added where there should be none.
func p30Absent(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.AudGap = 0
	w := newWorld(k, cfg)
	w.Grow(r.Range(1, 8))
	clients := w.actors()
	if r.P(0.5) {
		w.Grow(r.Range(1, 3))
	}
	tpa := cfg.Mode == structs.ThirdPartyAuditing
	w.setNow(max(w.now, w.hist[w.n()-1].Ts))
	for i := 0; i < 12; i++ {
		cl := clients[r.Intn(len(clients))]
		o := cl.randOp()
		srv, c2 := w.Clone(), cl.clone()
		how := ""
		at := r.Intn(2)
		before := c2.st.clone()
		out := c2.do(o, srv, tamper{seq: srv.stillSequencer, res: func(i int, res any) {
			if i != at {
				return
			}
			before = c2.st.clone()
			fth := fthOf(res)
			head := &structs.AuditorTreeHead{Timestamp: srv.hist[srv.n()-1].Ts, TreeSize: srv.n(), Signature: r.Bytes(64)}
			if tpa {
				head = srv.auditorHead(srv.n())
			} else if r.P(0.3) {
				head = &structs.AuditorTreeHead{}
			}
			switch {
			case fth.TreeHead == nil:
				fth.AuditorTreeHead, how = head, "auditor tree head without tree head"
			case tpa && r.P(0.3):
				fth.TreeHead, how = nil, "tree head stripped, auditor tree head left"
			case tpa:
				fth.AuditorTreeHead, how = nil, "auditor tree head stripped"
			default:
				fth.AuditorTreeHead, how = head, "auditor tree head added"
			}
		}})
		if how == "" || out.srv != nil {
			continue
		}
		k.Assert(out.verified <= at && !isNotFound(out.err) && !isExpired(out.err), "%s in mode %s: %s in response %d was accepted", o.kind, modeNames[cfg.Mode], how, at)
		k.Assert(c2.st.equal(before), "%s in mode %s: %s: rejected, but changed the state of the client", o.kind, modeNames[cfg.Mode], how)
		k.Eval("absent %s %s new=%t %s", modeNames[cfg.Mode], o.kind, cl.size() == 0, how)
		k.Count("absent or unexpected heads", 1)
	}
}

// history: clients follow a log whose auditor comes and goes.
func p30History(k *Case) {
	r := k.R
	w := newWorld(k, p30Cfg(k))
	if w.cfg.Lag < w.cfg.RMW {
		w.cfg.Lag = w.cfg.RMW
		w.priv.MaxAuditorLag = w.cfg.Lag
		w.pub = w.priv.Public()
		w.reload()
	}
	type held struct {
		cl   *Client
		head *structs.AuditorTreeHead
	}
	var clients []*held
	w.Grow(1)
	var kept *structs.AuditorTreeHead
	for step := 0; step < 25; step++ {
		if r.P(0.6) {
			w.Grow(r.Range(1, 2))
		}
		n := w.n()
		// The auditor may be behind, vouch again for the same size at a later
		// time, or the log may hold its newest heads back.
		if kept == nil || r.P(0.7) {
			size := uint64(r.Range(1, int(n)))
			ts := w.hist[size-1].Ts + uint64(r.Intn(int(min(w.hist[n-1].Ts-w.hist[size-1].Ts, 1<<40))+1))
			kept = w.signAuditorHead(ts, size, refLogRoot(w.leaves(size)), w.audKey)
		}
		w.publishHead(kept)
		if len(clients) < 4 {
			clients = append(clients, &held{cl: w.newClient()})
		}
		h := clients[r.Intn(len(clients))]
		o := h.cl.randOp()
		if o.kind == "update" {
			continue
		}
		before := h.cl.clone()
		out := h.cl.do(o, w, tamper{})
		if out.srv != nil || out.idle {
			continue
		}
		what := fmt.Sprintf("%s by a client at %d of a log of size %d, auditor tree head of size %d at %d", o.kind, before.size(), n, kept.TreeSize, kept.Timestamp)
		ok, why := true, "unchanged"
		if before.size() != n {
			ok, why = p30Acceptable(w.p30(), n, kept, true, before.State())
		}
		if !ok {
			k.Assert(!decided(out.outcome), "%s: was accepted although %s", what, why)
			k.Assert(h.cl.st.equal(before.st), "%s: a rejected response changed the state of the client", what)
		} else if out.err == nil {
			if before.size() != n {
				h.head = kept
			}
			p30Retained(k, w, h.cl, before, h.head, what)
		} else if !decided(out.outcome) {
			k.Fail("%s: was rejected: %v", what, out.err)
		}
		k.Eval("history %s new=%t %s %t", o.kind, before.size() == 0, why, ok)
		k.Count("steps of histories", 1)
	}
}
