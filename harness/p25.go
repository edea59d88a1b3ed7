//go:build P25

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"runtime"
	"sync"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

func init() {
	register(&Check{
		ID: "P25", Level: "exploration", Min: 3000,
		Rule: "many goroutines create versions of few labels through the operator's managed log, whose manager is a recorder or the real log on LevelDB with a writer that sequences what it gets in any order; signatures are absent, by other keys, for other labels, versions, values or deployments, or damaged, in requests to the manager, in what the manager sequences and in responses; all under the race detector; an evaluation is one request or altered signature, keyed by what was altered, where, and the outcome",
		Run:  runP25,
	})
}

func runP25(c *Ctx) {
	c.Each("allocation", c.N(120, 3000), p25Allocation)
	c.Each("proxy", c.N(20, 200), p25Proxy)
	c.Each("manager", c.N(160, 6000), p25Manager)
	c.Each("client", c.N(240, 10000), p25Client)
	c.Each("log", c.N(40, 700), p25Log)
}

// p25World is a world with a manager, and the log as its operator runs it.
func p25World(k *Case, store db.TransparencyStore) *World {
	cfg := genCfg(k.R)
	cfg.Mode = structs.ThirdPartyManagement
	return newWorldStore(k, cfg, store)
}

func (w *World) p25Valid(label []byte, ver uint32, value, sig []byte) bool {
	return w.leafKey.Public().Verify(mustMarshal(&structs.UpdateTBS{Config: w.pub, Label: label, Version: ver, Value: value}), sig)
}

// p25Stub is a manager that keeps what it is asked and has distinct answers.
type p25Stub struct {
	mu   sync.Mutex
	reqs []*structs.ManagerUpdateRequest
	last any // last request of another kind
	ctx  context.Context

	search  *structs.SearchResponse
	contact *structs.ContactMonitorResponse
	init    *structs.OwnerInitResponse
	owner   *structs.OwnerMonitorResponse
	update  chan wire.UpdateResponse
	err     error
	plain   int // requests that were not signed
}

func (s *p25Stub) note(ctx context.Context, req any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ctx, s.last = ctx, req
}
func (s *p25Stub) Search(ctx context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	s.note(ctx, req)
	return s.search, s.err
}
func (s *p25Stub) ContactMonitor(ctx context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	s.note(ctx, req)
	return s.contact, s.err
}
func (s *p25Stub) OwnerInit(ctx context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	s.note(ctx, req)
	return s.init, s.err
}
func (s *p25Stub) OwnerMonitor(ctx context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	s.note(ctx, req)
	return s.owner, s.err
}
func (s *p25Stub) Update(ctx context.Context, req *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.plain++
	return s.update, s.err
}
func (s *p25Stub) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	s.note(ctx, req)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reqs = append(s.reqs, req)
	return s.update, s.err
}

// p25Store is an operator's database that may be slow or fail.
type p25Store struct {
	db.ManagedLogStore
	delay *lockedRand
	fail  bool
}

func (s *p25Store) IncrementGreatestVersion(label []byte, count int) (int, error) {
	s.delay.delay()
	if s.fail {
		return 0, errors.New("database failed")
	}
	defer s.delay.delay()
	return s.ManagedLogStore.IncrementGreatestVersion(label, count)
}

// p25Allocation has many requests be signed at once.
func p25Allocation(k *Case) {
	r := k.R
	w := p25World(k, memory.NewTransparencyStore())
	stub := &p25Stub{update: make(chan wire.UpdateResponse), err: pick(r, nil, nil, errors.New("refused"))}
	store := &p25Store{memory.NewManagedLogStore(), &lockedRand{r: newRand(r.Int63()), rate: pick(r, 0.0, 0.1, 0.5)}, false}
	ml := must(managed.NewManagedLog(w.pub, stub, store, w.leafKey))

	type made struct {
		label  []byte
		req    *structs.UpdateRequest
		values [][]byte
	}
	var c crew
	var mu sync.Mutex
	all := make(map[string]made)
	labels := w.names[:r.Range(1, min(len(w.names), 3))]
	empty := make(map[string]int) // requests without values
	g := r.Range(2, 8)
	var start sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		rr := newRand(r.Int63())
		c.spawn(func() {
			start.Wait()
			for j := rr.Range(5, 20); j > 0; j-- {
				l := labels[rr.Intn(len(labels))]
				m := made{label: l, req: &structs.UpdateRequest{Label: l}}
				if rr.P(0.7) {
					m.req.Last = ptr(uint64(rr.Range(1, 1000)))
				}
				if rr.P(0.7) {
					m.req.GreatestVersion = ptr(uint32(rr.Intn(1000)))
				}
				for n := pick(rr, 0, 1, 1, 1, 2, 3, 9); n > 0; n-- {
					v := []byte(fmt.Sprintf("%d %d %d", i, j, n))
					m.values = append(m.values, v)
					m.req.Values = append(m.req.Values, structs.LabelValue{Value: v})
				}
				ch, err := ml.Update(bg, m.req)
				if (stub.err == nil) != (err == nil) || err == nil && ch != (<-chan wire.UpdateResponse)(stub.update) {
					panic(caseFailed{fmt.Sprintf("the manager's answer is not what the user gets; error: %v", err)})
				}
				mu.Lock()
				if len(m.values) == 0 {
					empty[string(l)]++
				} else {
					all[string(m.values[0])] = m
				}
				mu.Unlock()
				if rr.P(0.3) {
					runtime.Gosched()
				}
			}
		})
	}
	start.Done()
	c.wait(k)

	k.Assert(stub.plain == 0, "an update was submitted without signatures")
	taken := make(map[string]map[uint32][]byte)
	for _, l := range labels {
		taken[string(l)] = make(map[uint32][]byte)
	}
	for _, mr := range stub.reqs {
		if len(mr.Values) == 0 {
			empty[string(mr.Label)]--
			continue
		}
		m, ok := all[string(mr.Values[0].Value)]
		k.Assert(ok, "the manager got values that nobody has requested")
		delete(all, string(mr.Values[0].Value))
		k.Assert(bytes.Equal(mr.Label, m.label), "the manager got another label")
		k.Assert((mr.Last == nil) == (m.req.Last == nil) && (mr.Last == nil || *mr.Last == *m.req.Last), "the manager got another tree size")
		k.Assert((mr.GreatestVersion == nil) == (m.req.GreatestVersion == nil) && (mr.GreatestVersion == nil || *mr.GreatestVersion == *m.req.GreatestVersion), "the manager got another greatest version")
		k.Assert(len(mr.Values) == len(m.values), "the manager got %d values, not %d", len(mr.Values), len(m.values))
		for i, v := range mr.Values {
			ver := mr.SignedVersion + uint32(i)
			k.Assert(bytes.Equal(v.Value, m.values[i]), "the manager got another value")
			k.Assert(w.p25Valid(m.label, ver, v.Value, v.Signature), "signature of version %d is invalid", ver)
			old, again := taken[string(m.label)][ver]
			k.Assert(!again, "version %d was assigned to %q and %q", ver, old, v.Value)
			taken[string(m.label)][ver] = v.Value
		}
		k.Eval("allocation/%d/%d/%d/%d/%v", g, len(labels), len(mr.Values), mr.SignedVersion, stub.err != nil)
	}
	k.Assert(len(all) == 0, "%d requests did not reach the manager", len(all))
	for l, n := range empty {
		k.Assert(n == 0, "requests without values for %.20q reached the manager too often or not at all (%d)", l, n)
	}
	for l, vs := range taken {
		for ver := range vs {
			k.Assert(int(ver) < len(vs), "version %d of %.20q was assigned, but there are only %d", ver, l, len(vs))
		}
		k.Count("versions assigned", len(vs))
	}
	// The operator's database knows.
	for _, l := range labels {
		prev := must(store.IncrementGreatestVersion(l, 1))
		k.Assert(prev+1 == len(taken[string(l)]), "the next version of %.20q will be %d, %d were assigned", l, prev+1, len(taken[string(l)]))
	}
	// Without it there are no versions.
	store.fail = true
	before := len(stub.reqs)
	_, err := ml.Update(bg, &structs.UpdateRequest{Label: labels[0], Values: []structs.LabelValue{{Value: []byte("value")}}})
	k.Assert(err != nil && len(stub.reqs) == before, "values were signed when the operator's database had failed; error: %v", err)
}

// p25Proxy checks that everything else goes through unchanged, and whether a
// managed log can be made.
func p25Proxy(k *Case) {
	r := k.R
	w := p25World(k, memory.NewTransparencyStore())
	stub := &p25Stub{search: new(structs.SearchResponse), contact: new(structs.ContactMonitorResponse), init: new(structs.OwnerInitResponse), owner: new(structs.OwnerMonitorResponse)}
	ml := must(managed.NewManagedLog(w.pub, stub, memory.NewManagedLogStore(), w.leafKey))
	type ctxKey struct{}
	ctx := context.WithValue(bg, ctxKey{}, 1)
	for i := 0; i < 2; i++ {
		sr, cr, ir, or := new(structs.SearchRequest), new(structs.ContactMonitorRequest), new(structs.OwnerInitRequest), new(structs.OwnerMonitorRequest)
		s, err := ml.Search(ctx, sr)
		k.Assert(s == stub.search && err == stub.err && stub.last == any(sr) && stub.ctx == ctx, "a search is altered on its way to or from the manager")
		c, err := ml.ContactMonitor(ctx, cr)
		k.Assert(c == stub.contact && err == stub.err && stub.last == any(cr) && stub.ctx == ctx, "contact monitoring is altered on its way to or from the manager")
		n, err := ml.OwnerInit(ctx, ir)
		k.Assert(n == stub.init && err == stub.err && stub.last == any(ir) && stub.ctx == ctx, "owner initialisation is altered on its way to or from the manager")
		o, err := ml.OwnerMonitor(ctx, or)
		k.Assert(o == stub.owner && err == stub.err && stub.last == any(or) && stub.ctx == ctx, "owner monitoring is altered on its way to or from the manager")
		ch, err := ml.Update(ctx, &structs.UpdateRequest{})
		k.Assert(ch == nil && err == stub.err && stub.ctx == ctx, "the context of an update does not reach the manager")
		stub.err = errors.New("refused")
		stub.search, stub.contact, stub.init, stub.owner = nil, nil, nil, nil
		k.Eval("proxy/%d/%d", w.cfg.Suite, i)
	}
	// Signatures by another key, or in another mode, would never be accepted.
	other := genSigningKey(r, w.cs)
	_, err := managed.NewManagedLog(w.pub, stub, memory.NewManagedLogStore(), other)
	k.Assert(err != nil, "a managed log with a wrong key was made")
	k.Eval("proxy/%d/wrong key", w.cfg.Suite)
	for _, mode := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyAuditing} {
		cfg := w.cfg
		cfg.Mode = mode
		w2 := newWorld(k, cfg)
		_, err := managed.NewManagedLog(w2.pub, stub, memory.NewManagedLogStore(), w.leafKey)
		k.Assert(err != nil, "a managed log of a log without manager was made")
		pub := *w2.pub
		pub.LeafPublicKey = w.leafKey.Public()
		_, err = managed.NewManagedLog(&pub, stub, memory.NewManagedLogStore(), w.leafKey)
		k.Assert(err != nil, "a managed log of a log without manager was made")
		k.Eval("proxy/%d/%d", w.cfg.Suite, mode)
	}
	pub := *w.pub
	pub.LeafPublicKey = nil
	_, err = managed.NewManagedLog(&pub, stub, memory.NewManagedLogStore(), w.leafKey)
	k.Assert(err != nil, "a managed log without leaf key was made")
}

// p25Forge returns a signature that is not one for the version of the label
// with the value.
func (w *World) p25Forge(label []byte, ver uint32, value []byte) (sig []byte, how string) {
	r := w.r
	good := w.signLeaf(label, ver, value)
	sign := func(pub *structs.PublicConfig, l []byte, v uint32, val []byte) []byte {
		return must(w.leafKey.Sign(mustMarshal(&structs.UpdateTBS{Config: pub, Label: l, Version: v, Value: val})))
	}
	for {
		switch r.Intn(14) {
		case 0:
			sig, how = []byte{}, "absent"
		case 1:
			sig, how = make([]byte, len(good)), "zeros"
		case 2:
			sig, how = r.Bytes(len(good)), "random"
		case 3:
			sig, how = bytes.Clone(good), "damaged"
			sig[r.Intn(len(sig))] ^= 1 << r.Intn(8)
		case 4:
			sig, how = good[:r.Intn(len(good))], "short"
		case 5:
			sig, how = append(bytes.Clone(good), r.Bytes(r.Range(1, 3))...), "long"
		case 6:
			key := genSigningKey(r, w.cs)
			sig, how = must(key.Sign(mustMarshal(&structs.UpdateTBS{Config: w.pub, Label: label, Version: ver, Value: value}))), "another key"
		case 7:
			sig, how = must(w.priv.SignatureKey.Sign(mustMarshal(&structs.UpdateTBS{Config: w.pub, Label: label, Version: ver, Value: value}))), "the log's key"
		case 8:
			l := append(bytes.Clone(label[:min(len(label), 200)]), 'x')
			if len(label) > 0 && r.P(0.5) {
				l = label[:len(label)-1]
			}
			sig, how = sign(w.pub, l, ver, value), "another label"
		case 9:
			sig, how = sign(w.pub, label, ver+pick(r, uint32(1), ^uint32(0), 256, 1<<16, 1<<24, uint32(r.Range(1, 9))), value), "another version"
		case 10:
			v := append(bytes.Clone(value), 0)
			if len(value) > 0 && r.P(0.5) {
				v = value[:len(value)-1]
			}
			sig, how = sign(w.pub, label, ver, v), "another value"
		case 11:
			pub := *w.pub
			switch r.Intn(4) {
			case 0:
				pub.ReasonableMonitoringWindow++
			case 1:
				pub.SignatureKey = genSigningKey(r, w.cs).Public()
			case 2:
				pub.VrfKey = must(w.cs.ParseVRFPrivateKey(keyBytes(r))).PublicKey()
			case 3:
				pub.MaxAhead--
			}
			sig, how = sign(&pub, label, ver, value), "another deployment"
		case 12:
			// The label and the value are told apart.
			if len(value) == 0 || len(label) > 200 {
				continue
			}
			sig, how = sign(w.pub, append(bytes.Clone(label), value[0]), ver, value[1:]), "shifted"
		case 13:
			sig, how = must(w.leafKey.Sign(append([]byte(nil), value...))), "the value alone"
		}
		if w.p25Benign(sig, good) {
			continue
		}
		return
	}
}

// p25Benign reports whether a signature is the same as another one: an ECDSA
// signature (r, s) is also valid as (r, n-s).
func (w *World) p25Benign(sig, good []byte) bool {
	if bytes.Equal(sig, good) {
		return true
	}
	if w.cfg.Suite != 1 || len(sig) != 64 || len(good) != 64 || !bytes.Equal(sig[:32], good[:32]) {
		return false
	}
	n, _ := new(big.Int).SetString("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16)
	s := new(big.Int).Add(new(big.Int).SetBytes(sig[32:]), new(big.Int).SetBytes(good[32:]))
	return s.Cmp(n) == 0
}

// p25Manager has the manager get requests with forged signatures.
func p25Manager(k *Case) {
	r := k.R
	w := p25World(k, memory.NewTransparencyStore())
	w.MustMutate([]Add{{Label: []byte("another label"), Value: []byte("other")}}, nil)
	w.Grow(r.Range(0, 5))
	ask := func(req *structs.ManagerUpdateRequest) (refused bool, asked *transparency.UpdateRequest) {
		req2, err := recode(req, func(b *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(w.pub, b)
		})
		if err != nil {
			return true, nil
		}
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		ch, err := w.tree.ManagerUpdate(ctx, req2)
		if err != nil {
			return true, nil
		}
		timer := time.NewTimer(waitLimit)
		defer timer.Stop()
		for {
			select {
			case req := <-w.updates:
				asked = &req
				close(req.Response)
			case _, ok := <-ch:
				if !ok {
					return
				}
			case <-timer.C:
				k.Fail("an update stream neither ended nor produced anything for %v", waitLimit)
			}
		}
	}
	for i := 0; i < 30; i++ {
		l := w.names[r.Intn(len(w.names))]
		start := uint32(len(w.cur[string(l)]))
		if r.P(0.3) {
			start = pick(r, start+1, start+uint32(r.Intn(300)), 1<<31, ^uint32(0)-10, 0)
		}
		req := &structs.ManagerUpdateRequest{Label: l, SignedVersion: start, GreatestVersion: ptr(uint32(r.Intn(30)))}
		if have := len(w.cur[string(l)]); have > 0 {
			req.GreatestVersion = ptr(uint32(have - 1))
		} else {
			req.GreatestVersion = nil
		}
		for j := pick(r, 1, 1, 2, 3, 5); j > 0; j-- {
			v := w.newValue()
			req.Values = append(req.Values, structs.UpdateValue{Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: w.signLeaf(l, start+uint32(len(req.Values)), v)}})
		}
		how, at := "", r.Intn(len(req.Values))
		switch r.Intn(10) {
		case 0:
			how = "genuine"
		case 1:
			req.SignedVersion, how = start+pick(r, uint32(1), ^uint32(0), uint32(len(req.Values))), "version"
		case 2:
			req.Label, how = append(bytes.Clone(l[:min(len(l), 200)]), 'x'), "label"
		case 3:
			req.Values[at].Value, how = append(bytes.Clone(req.Values[at].Value), 'x'), "value"
		case 4:
			if len(req.Values) < 2 {
				continue
			}
			other := (at + 1) % len(req.Values)
			if bytes.Equal(req.Values[at].Value, req.Values[other].Value) && r.P(0.5) {
				continue
			}
			req.Values[at], req.Values[other], how = req.Values[other], req.Values[at], "order"
		case 5:
			if len(req.Values) < 2 {
				continue
			}
			req.Values, how = req.Values[1:], "first dropped"
		default:
			req.Values[at].Signature, how = w.p25Forge(l, start+uint32(at), req.Values[at].Value)
		}
		refused, asked := ask(req)
		if how == "genuine" {
			k.Assert(!refused && asked != nil, "genuinely signed values were not submitted")
			k.Assert(asked.StartingVersion != nil && *asked.StartingVersion == start, "values signed for version %d were submitted for another one", start)
			k.Assert(bytes.Equal(asked.Label, l) && len(asked.Values) == len(req.Values), "something else was submitted")
			for i, v := range asked.Values {
				k.Assert(bytes.Equal(v.Value, req.Values[i].Value) && w.p25Valid(l, start+uint32(i), v.Value, v.Signature), "a value was submitted without its signature")
			}
		} else {
			k.Assert(asked == nil, "values were submitted though the signature of one of them is false: %s", how)
			k.Assert(refused, "values with a false signature were not refused: %s", how)
		}
		if i == 0 {
			k.Sample("request for %d values from version %d: %s, refused %v", len(req.Values), start, how, refused)
		}
		k.Count("requests to the manager", 1)
		k.Eval("manager/%d/%d/%d/%d/%s", w.cfg.Suite, start, len(req.Values), at, how)
	}
	// Values can't get in without signatures.
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	_, err := w.tree.Update(ctx, &structs.UpdateRequest{Label: w.names[0], Values: []structs.LabelValue{{Value: []byte("value")}}})
	k.Assert(err != nil, "values without signatures were not refused")
	// Nor can values with signatures where there is no manager.
	cfg := w.cfg
	cfg.Mode = pick(r, structs.ContactMonitoring, structs.ThirdPartyAuditing)
	w2 := newWorld(k, cfg)
	w2.MustMutate(nil, nil)
	_, err = w2.tree.ManagerUpdate(ctx, &structs.ManagerUpdateRequest{Label: w.names[0], Values: []structs.UpdateValue{{Value: []byte("value")}}})
	k.Assert(err != nil, "a log without manager accepted values for one")
	_, err = w2.tree.ManagerUpdate(ctx, &structs.ManagerUpdateRequest{Label: w.names[0]})
	k.Assert(err != nil, "a log without manager accepted a request for one")
	k.Eval("manager/%d/mode", cfg.Mode)
}

// p25Client has a manager sequence values with forged signatures.
func p25Client(k *Case) {
	r := k.R
	w := p25World(k, memory.NewTransparencyStore())
	other := []byte("another label")
	w.MustMutate([]Add{{Label: other, Value: []byte("other")}}, nil)
	w.setNow(w.now + w.cfg.RMW)
	w.MustMutate(nil, nil)
	l := w.names[0]
	forged := make(map[int]string)
	adds := func(n int) (out []Add) {
		for ; n > 0; n-- {
			v := w.newValue()
			a := Add{Label: l, Value: v}
			ver := len(w.cur[string(l)]) + len(out)
			if r.P(0.3) {
				a.Sig, forged[ver] = w.p25Forge(l, uint32(ver), v)
			}
			out = append(out, a)
		}
		return
	}
	for i := r.Range(0, 5); i > 0; i-- {
		w.advance()
		w.MustMutate(adds(pick(r, 0, 1, 1, 2, 3)), nil)
	}
	// An owner follows.
	cl := w.newClient()
	if _, out := cl.Search(other, nil); !out.ok() {
		k.Fail("search for another label: %v", out)
	}
	if _, _, out := cl.OwnerInit(l); !out.ok() {
		k.Fail("owner initialisation: %v", out)
	}
	for round := r.Range(1, 3); round > 0; round-- {
		for i := r.Range(0, 3); i > 0; i-- {
			w.advance()
			w.MustMutate(adds(pick(r, 0, 1, 1, 2, 3)), nil)
		}
		var values [][]byte
		for i := pick(r, 0, 1, 1, 2, 3); i > 0; i-- {
			values = append(values, w.newValue())
		}
		o := cl.Label(l).Owner
		known := o.VerAtStarting + 1 + len(o.UpcomingVers)
		how := "genuine"
		seq := func(req transparency.UpdateRequest) (uint64, bool) {
			w.advance()
			as := w.reqAdds(req)
			if r.P(0.5) {
				i := r.Intn(len(as))
				ver := len(w.cur[string(l)]) + i
				as[i].Sig, how = w.p25Forge(l, uint32(ver), as[i].Value)
				forged[ver] = how
			}
			pos := w.n()
			w.MustMutate(as, nil)
			return pos, true
		}
		out := cl.do(op{kind: "update", label: l, values: values}, w, tamper{seq: seq})
		o = cl.Label(l).Owner
		have := o.VerAtStarting + 1 + len(o.UpcomingVers)
		first := -1
		for v := len(w.cur[string(l)]) - 1; v >= known; v-- {
			if forged[v] != "" {
				first = v
			}
		}
		if first < 0 {
			k.Assert(out.ok() && have == len(w.cur[string(l)]), "stream of properly signed versions failed: %v", out)
		} else {
			k.Assert(have <= first, "owner has accepted version %d, whose signature is false: %s", first, forged[first])
			k.Assert(out.err != nil, "stream with a false signature (%s) was accepted: %v", forged[first], out)
			how = forged[first]
		}
		k.Count("streams", 1)
		k.Eval("stream/%d/%d/%d/%d/%s", w.cfg.Suite, known, len(values), first, how)
		if first >= 0 {
			break
		}
	}
	// Everybody looks for versions.
	count := len(w.cur[string(l)])
	search := func(cl *Client, ver *uint32) {
		v := count - 1
		if ver != nil {
			v = int(*ver)
		}
		before := cl.st.clone()
		res, out := cl.Search(l, ver)
		k.Assert(out.srv == nil, "search failed: %v", out)
		if how := forged[v]; how != "" {
			k.Assert(out.err != nil, "version %d was accepted though its signature is false: %s", v, how)
			k.Assert(cl.st.equal(before), "client's state has changed though the response was rejected")
			k.Eval("search/%d/%d/%v/%s", w.cfg.Suite, v, ver == nil, how)
			k.Count("searches for versions with false signatures", 1)
			return
		}
		k.Assert(out.ok(), "version %d, which is signed properly, was rejected: %v", v, out)
		k.Assert(bytes.Equal(res.Value.Value, w.cur[string(l)][v].Value), "version %d has another value", v)
		// The same with a false signature on the way.
		cl2 := &Client{w, before, must(transparency.NewClient(w.pub, before))}
		for i := 0; i < 2; i++ {
			how := ""
			before := cl2.st.clone()
			o := op{kind: "fixed", label: l, ver: uint32(v)}
			if ver == nil {
				o.kind = "greatest"
			}
			out := cl2.do(o, w, tamper{res: func(_ int, res any) {
				sr := res.(*structs.SearchResponse)
				sr.Value.Signature, how = w.p25Forge(l, uint32(v), sr.Value.Value)
			}})
			k.Assert(out.err != nil && cl2.st.equal(before), "version %d was accepted with a false signature: %s", v, how)
			k.Eval("altered/%d/%d/%v/%s", w.cfg.Suite, v, ver == nil, how)
		}
		k.Count("searches", 1)
	}
	for i := 0; i < 6 && count > 0; i++ {
		cl := w.newClient()
		if r.P(0.3) {
			cl.Search(other, nil)
		}
		if r.P(0.4) {
			search(cl, nil)
		} else {
			search(cl, ptr(uint32(r.Intn(count))))
		}
	}
}

// p25Manages answers each request with a new view of the manager's log.
type p25Manages struct {
	w    *World
	base db.TransparencyStore
}

func (m *p25Manages) tree() (*transparency.Tree, error) {
	return transparency.NewTree(m.w.priv, m.base.Clone(), m.w.updates)
}
func (m *p25Manages) Search(ctx context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	t, err := m.tree()
	if err != nil {
		return nil, err
	}
	return t.Search(ctx, req)
}
func (m *p25Manages) ContactMonitor(ctx context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	t, err := m.tree()
	if err != nil {
		return nil, err
	}
	return t.ContactMonitor(ctx, req)
}
func (m *p25Manages) OwnerInit(ctx context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	t, err := m.tree()
	if err != nil {
		return nil, err
	}
	return t.OwnerInit(ctx, req)
}
func (m *p25Manages) OwnerMonitor(ctx context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	t, err := m.tree()
	if err != nil {
		return nil, err
	}
	return t.OwnerMonitor(ctx, req)
}
func (m *p25Manages) Update(ctx context.Context, req *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	t, err := m.tree()
	if err != nil {
		return nil, err
	}
	return t.Update(ctx, req)
}
func (m *p25Manages) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	t, err := m.tree()
	if err != nil {
		return nil, err
	}
	req, err = recode(req, func(b *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
		return structs.NewManagerUpdateRequest(m.w.pub, b)
	})
	if err != nil {
		return nil, err
	}
	return t.ManagerUpdate(ctx, req)
}

// p25Log has owners create versions through a managed log at the same time.
func p25Log(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	store, done, err := openLDB(dir)
	check(err)
	defer done()
	w := p25World(k, store)
	w.names = w.names[:2]
	other := []byte("another label")
	w.MustMutate([]Add{{Label: other, Value: []byte("other")}}, nil)
	w.setNow(w.now + 2*w.cfg.RMW)
	w.MustMutate(nil, nil)

	proto := *w
	proto.hist, proto.cur, proto.tree, proto.store = nil, nil, nil, nil
	proto.noClock = true
	base := slowStore{store.Clone(), &lockedRand{r: newRand(r.Int63()), rate: pick(r, 0.0, 0.02, 0.2)}}
	opStore := &p25Store{memory.NewManagedLogStore(), &lockedRand{r: newRand(r.Int63()), rate: pick(r, 0.0, 0.2)}, false}
	ml := must(managed.NewManagedLog(w.pub, &p25Manages{&proto, base}, opStore, w.leafKey))

	type made struct {
		label  []byte
		values [][]byte
		known  int
	}
	var c, owners crew
	var mu sync.Mutex
	var all []made
	var clients []*Client
	for i := r.Range(2, 6); i > 0; i-- {
		view := proto
		v := &view
		v.r = newRand(r.Int63())
		v.k = &Case{Ctx: k.Ctx, Name: k.Name, Idx: k.Idx, R: v.r}
		cl := v.newClient()
		clients = append(clients, cl)
		owners.spawn(func() {
			rr := v.r
			req, vf := cl.searchReq(other, nil)
			if err := vf(must(ml.Search(bg, req))); err != nil {
				v.k.Fail("search for another label: %v", err)
			}
			for j := rr.Range(3, 8); j > 0 && !c.stop.Load(); j-- {
				l := v.names[rr.Intn(2)]
				if s := cl.Label(l); s == nil || s.Owner == nil {
					req, vf, err := cl.c.OwnerInit(l)
					check(err)
					if err := vf(must(ml.OwnerInit(bg, req))); err != nil {
						v.k.Fail("owner initialisation: %v", err)
					}
				}
				o := cl.Label(l).Owner
				m := made{label: l, known: o.VerAtStarting + 1 + len(o.UpcomingVers)}
				for n := pick(rr, 0, 1, 1, 2, 4); n > 0; n-- {
					m.values = append(m.values, []byte(fmt.Sprintf("owner %d %d %d", i, j, n)))
				}
				req, sv, err := cl.c.Update(l, m.values)
				check(err)
				ctx, cancel := context.WithCancel(bg)
				ch, err := ml.Update(ctx, must(recode(req, structs.NewUpdateRequest)))
				v.k.Assert(err == nil, "update refused: %v", err)
				timer := time.NewTimer(waitLimit)
				for open := true; open; {
					select {
					case res, ok := <-ch:
						if !ok {
							open = false
							break
						}
						v.k.Assert(res.Err == nil, "stream ended with an error: %v", res.Err)
						out := must(recode(res.Out, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
							return structs.NewUpdateResponse(v.pub, b)
						}))
						if err := sv.Verify(out); err != nil {
							v.k.Fail("response for versions in log entry %d rejected: %v", out.Position, err)
						}
						v.k.Count("responses", 1)
					case <-timer.C:
						v.k.Fail("an update stream neither ended nor produced anything for %v", waitLimit)
					}
				}
				timer.Stop()
				cancel()
				mu.Lock()
				all = append(all, m)
				mu.Unlock()
			}
		})
	}
	stopped := make(chan struct{})
	one := r.P(0.5) // one request per label and log entry
	rw := newRand(r.Int63())
	c.spawn(func() {
		var open []transparency.UpdateRequest
		for {
			select {
			case req := <-w.updates:
				if req.StartingVersion == nil {
					k.Fail("values for an unknown version were submitted")
				}
				open = append(open, req)
			case <-time.After(time.Duration(rw.Intn(1500)) * time.Microsecond):
			case <-stopped:
				return
			}
			if len(open) < 4 && rw.P(0.5) || len(open) == 0 && rw.P(0.9) {
				continue
			}
			w.advance()
			var adds []Add
			var answer []transparency.UpdateRequest
			next := map[string]int{}
			for l, vs := range w.cur {
				next[l] = len(vs)
			}
			for again := true; again; {
				again = false
				rw.Shuffle(len(open), func(i, j int) { open[i], open[j] = open[j], open[i] })
				for i, req := range open {
					l := string(req.Label)
					if int(*req.StartingVersion) < next[l] && next[l] == len(w.cur[l]) {
						k.Fail("values were signed for version %d, which exists", *req.StartingVersion)
					}
					if int(*req.StartingVersion) != next[l] || one && next[l] != len(w.cur[l]) {
						continue
					}
					next[l] += len(req.Values)
					adds = append(adds, w.reqAdds(req)...)
					answer = append(answer, req)
					open = append(open[:i:i], open[i+1:]...)
					again = true
					break
				}
			}
			pos := w.n()
			w.MustMutate(adds, nil)
			rw.Shuffle(len(answer), func(i, j int) { answer[i], answer[j] = answer[j], answer[i] })
			for _, req := range answer {
				req.Response <- pos
			}
		}
	})
	owners.wg.Wait()
	close(stopped)
	c.wait(k)
	owners.wait(k)

	where := make(map[string]int)
	for _, l := range w.names {
		for v, ver := range w.cur[string(l)] {
			where[string(ver.Value)] = v
			k.Assert(w.p25Valid(l, uint32(v), ver.Value, ver.Sig), "version %d is in the log without a valid signature", v)
		}
	}
	total := 0
	for _, m := range all {
		for i, v := range m.values {
			at, ok := where[string(v)]
			k.Assert(ok, "value %q was not sequenced though the stream ended well", v)
			k.Assert(at == where[string(m.values[0])]+i, "values of one request did not get consecutive versions")
		}
		total += len(m.values)
		k.Count("streams", 1)
		k.Eval("log/%d/%d/%d/%d/%v", w.cfg.Suite, m.known, len(m.values), len(clients), one)
	}
	k.Assert(total == len(where), "%d values were requested, %d were sequenced", total, len(where))
	for _, cl := range clients {
		cl.w.hist, cl.w.cur = w.hist, w.cur
		cl.checkState()
	}
	for _, l := range w.names {
		for v := range w.cur[string(l)] {
			w.newClient().findValue(l, uint32(v))
		}
	}
}

// findValue has the client look up a version that exists.
func (cl *Client) findValue(l []byte, v uint32) {
	res, out := cl.Search(l, &v)
	cl.w.k.Assert(out.ok(), "search for version %d: %v", v, out)
	cl.w.k.Assert(bytes.Equal(res.Value.Value, cl.w.cur[string(l)][v].Value), "version %d has another value", v)
}
