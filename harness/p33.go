//go:build P33

package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P33", Level: "fault_enumeration", Min: 3000,
		Rule: "for operations of clients of every kind in worlds of every mode, every database operation that the log makes while answering, and that the client makes while requesting and verifying, fails in turn, alone or with all later ones, and so does every database operation of a mutation; the operation is then repeated with a working database; an evaluation is one failure, keyed by the operation, the database operation that failed and the outcome",
		Run:  runP33,
	})
}

// faults decides which operation of a database fails.
type faults struct {
	on    bool
	count int
	at    int  // which operation fails first; 0 is none
	rest  bool // all later ones fail, too
	hit   string
}

func (f *faults) step(what string) error {
	if !f.on {
		return nil
	}
	f.count++
	if f.at > 0 && (f.count == f.at || f.rest && f.count > f.at) {
		if f.hit == "" {
			f.hit = what
		}
		return fmt.Errorf("%s: %w", what, errInjected)
	}
	return nil
}

// faultyStore is the log's database.
type faultyStore struct {
	db.TransparencyStore
	f *faults
}

func (s faultyStore) GetTreeHead() ([]byte, []byte, error) {
	if err := s.f.step("GetTreeHead"); err != nil {
		return nil, nil, err
	}
	return s.TransparencyStore.GetTreeHead()
}
func (s faultyStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	if err := s.f.step("BatchGetIndex"); err != nil {
		return nil, err
	}
	return s.TransparencyStore.BatchGetIndex(labels)
}
func (s faultyStore) GetVersion(label []byte, ver uint32) ([]byte, error) {
	if err := s.f.step("GetVersion"); err != nil {
		return nil, err
	}
	return s.TransparencyStore.GetVersion(label, ver)
}
func (s faultyStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := s.f.step("BatchGet"); err != nil {
		return nil, err
	}
	return s.TransparencyStore.BatchGet(keys)
}
func (s faultyStore) Clone() db.TransparencyStore {
	return faultyStore{s.TransparencyStore.Clone(), s.f}
}
func (s faultyStore) LogStore() db.LogStore { return faultyLog{s.TransparencyStore.LogStore(), s.f} }
func (s faultyStore) PrefixStore() db.PrefixStore {
	return faultyPrefix{s.TransparencyStore.PrefixStore(), s.f}
}

type faultyLog struct {
	db.LogStore
	f *faults
}

func (s faultyLog) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := s.f.step("log BatchGet"); err != nil {
		return nil, err
	}
	return s.LogStore.BatchGet(keys)
}

type faultyPrefix struct {
	db.PrefixStore
	f *faults
}

func (s faultyPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	if err := s.f.step("prefix BatchGet"); err != nil {
		return nil, err
	}
	return s.PrefixStore.BatchGet(keys)
}

// faultyCStore is a client's database.
type faultyCStore struct {
	*CStore
	f *faults
}

func (s faultyCStore) GetState() ([]byte, error) {
	if err := s.f.step("GetState"); err != nil {
		return nil, err
	}
	return s.CStore.GetState()
}
func (s faultyCStore) GetLabelState(label []byte) ([]byte, error) {
	if err := s.f.step("GetLabelState"); err != nil {
		return nil, err
	}
	return s.CStore.GetLabelState(label)
}
func (s faultyCStore) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	if err := s.f.step("GetStaleLabel"); err != nil {
		return nil, nil, err
	}
	return s.CStore.GetStaleLabel(cutoff)
}
func (s faultyCStore) PutState(raw []byte) error {
	if err := s.f.step("PutState"); err != nil {
		return err
	}
	return s.CStore.PutState(raw)
}
func (s faultyCStore) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	if err := s.f.step("PutLabelState"); err != nil {
		return err
	}
	return s.CStore.PutLabelState(raw, label, rawLabel, terminal)
}

func runP33(c *Ctx) {
	c.Each("server", c.N(160, 6000), p33Server)
	c.Each("client", c.N(240, 9000), p33Client)
	c.Each("open", c.N(40, 1000), p33Open)
	c.Each("mutate", c.N(60, 3000), p33Mutate)
}

func class(o opResult) string {
	switch {
	case o.srv != nil:
		return "server error"
	case o.err == nil && o.idle:
		return "idle"
	case o.err == nil:
		return "ok"
	case isNotFound(o.err):
		return "notfound"
	case isExpired(o.err):
		return "expired"
	}
	return "client error"
}

func p33World(k *Case) *World {
	cfg := genCfg(k.R)
	cfg.RMW = pick(k.R, cfg.RMW, 100, 10)
	if k.R.P(0.3) {
		cfg.Life = cfg.RMW * uint64(pick(k.R, 1, 2, 5)) * 2
	}
	w := newWorld(k, cfg)
	w.Grow(k.R.Range(1, 20))
	return w
}

// p33Actors are clients in various states, some of which have something to
// monitor.
func p33Actors(w *World) []*Client {
	actors := w.actors()
	w.Grow(w.r.Range(0, 8))
	for _, cl := range actors {
		if len(cl.st.labels) > 0 && w.r.P(0.7) {
			cl.Search(w.names[w.r.Intn(len(w.names))], nil)
		}
	}
	if w.r.P(0.5) {
		w.Grow(w.r.Range(1, 4))
	}
	return actors
}

// p33Op prefers monitoring, which is possible rarely.
func (cl *Client) p33Op() op {
	if dle := cl.dle(); dle >= 0 && cl.w.r.P(0.6) {
		if stale := cl.st.staleLabels(uint64(dle)); len(stale) > 0 {
			return op{kind: "monitor", label: []byte(stale[cl.w.r.Intn(len(stale))])}
		}
	}
	return cl.randOp()
}

// with returns the client over a world and a database that may fail.
func (cl *Client) with(w *World, f *faults) *Client {
	st := cl.st.clone()
	return &Client{w, st, must(transparency.NewClient(w.pub, faultyCStore{st, f}))}
}

func p33Kind(cl *Client, label []byte) string {
	if s := cl.Label(label); s != nil && s.Owner != nil {
		return "owner monitoring"
	}
	return "contact monitoring"
}

func p33Points(k *Case, n, max int) []int {
	var out []int
	for i := 1; i <= n; i++ {
		if n <= max || k.R.Intn(n) < max {
			out = append(out, i)
		}
	}
	return out
}

func p33Server(k *Case) {
	w := p33World(k)
	actors := p33Actors(w)
	for round := 0; round < 6; round++ {
		cl := actors[k.R.Intn(len(actors))]
		o := cl.p33Op()
		// try performs the operation in a copy of the world.
		try := func(f *faults) (*Client, *World, opResult) {
			cw := w.Clone()
			c2 := cl.with(cw, &faults{})
			srv := *cw
			srv.tree = must(transparency.NewTree(w.priv, faultyStore{cw.store, f}, cw.updates))
			f.on = true
			res := c2.do(o, &srv, tamper{seq: cw.defaultSequencer})
			f.on = false
			return c2, &srv, res
		}
		dry := &faults{}
		honest, _, want := try(dry)
		if want.idle || class(want) == "client error" || want.srv != nil {
			k.Count("operation not possible", 1)
			continue
		}
		for _, at := range p33Points(k, dry.count, 25) {
			f := &faults{at: at, rest: k.R.P(0.4)}
			c2, srv, res := try(f)
			if f.hit == "" {
				continue
			}
			what := fmt.Sprintf("%s of %q (version %d) by a client at size %d while database operation %d of %d of the log (%s) fails", o.kind, o.label, o.ver, cl.size(), at, dry.count, f.hit)
			k.Assert(class(res) != "client error", "%s: the client rejects the log's answer: %v", what, res.err)
			if o.kind != "update" {
				if res.srv != nil {
					k.Assert(c2.st.equal(cl.st), "%s: the client's state changed although there was no answer", what)
				} else {
					k.Assert(class(res) == class(want), "%s: the outcome is %q (%v), without a failure it is %q (%v)", what, class(res), res.err, class(want), want.err)
					k.Assert(c2.st.equal(honest.st), "%s: the client retains something else than without a failure", what)
					if s, ok := res.responses[0].(*structs.SearchResponse); ok {
						hs := want.responses[0].(*structs.SearchResponse)
						k.Assert(reflect.DeepEqual(s.Version, hs.Version) && bytes.Equal(s.Value.Value, hs.Value.Value), "%s: the value is %.40q, without a failure it is %.40q", what, s.Value.Value, hs.Value.Value)
					}
				}
			} else if res.srv == nil {
				k.Assert(res.verified >= want.verified, "%s: the stream ended without an error after %d of %d responses", what, res.verified, want.verified)
			}
			c2.w.use()
			c2.checkState()
			kind := o.kind
			if kind == "monitor" {
				kind = p33Kind(c2, o.label)
			}
			k.Eval("server %s %s %s", kind, f.hit, class(res))
			k.Count("answers: "+kind+": "+class(res), 1)
			// The same log has to work again.
			c2srv := *srv
			c2srv.hist, c2srv.cur = c2.w.hist, c2.w.cur
			if o.kind == "update" || k.R.P(0.5) {
				c2srv.reload()
			}
			again := c2.do(o, &c2srv, tamper{seq: c2.w.defaultSequencer})
			k.Assert(again.idle || class(again) == class(want), "%s: repeated, the outcome is %q (%v, %v), it should be %q", what, class(again), again.srv, again.err, class(want))
			c2.checkState()
		}
	}
}

// p33Mutate has every database operation of a mutation fail in turn.
func p33Mutate(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.RMW = pick(r, cfg.RMW, 100, 10)
	base := newTxStore()
	w := newWorldStore(k, cfg, base)
	w.Grow(r.Range(1, 14))
	old := w.newClient()
	old.Search(w.names[0], nil)
	for round := 0; round < 3; round++ {
		w.advance()
		adds := w.genAdds()
		var removes [][]byte
		if l := w.removable(); len(l) > 0 && r.P(0.5) {
			removes = append(removes, l[r.Intn(len(l))])
		}
		gone := len(removes) > 0
		for _, l := range w.names {
			gone = gone || w.wasRemoved(l)
		}
		// try attempts the mutation with a copy of the log.
		try := func(f *faults) (*World, *txStore, error) {
			s := newTxStore()
			for a, b := range base.kv {
				s.kv[a] = b
			}
			cw := *w
			cw.store, cw.hist = s, append([]Entry(nil), w.hist...)
			cw.updates = make(chan transparency.UpdateRequest)
			cw.reload()
			s.onRead = func(key string) error { return f.step("read " + key[:1]) }
			s.onWrite = func(key string) error {
				if key[0] == 'p' || key[0] == 'l' || key[0] == 't' {
					return f.step("write " + key[:1])
				}
				return nil
			}
			s.onCommit = func() error { return f.step("commit") }
			in, next := cw.lower(adds, removes)
			f.on = true
			update, err := cw.tree.Mutate(in, removes)
			f.on = false
			if err == nil {
				cw.adopt(update, adds, removes, next)
			}
			return &cw, s, err
		}
		dry := &faults{}
		if _, _, err := try(dry); err != nil {
			k.Logf("mutation is not possible: %v", err)
			continue
		}
		for _, at := range p33Points(k, dry.count, 12) {
			f := &faults{at: at, rest: r.P(0.4)}
			cw, s, err := try(f)
			if f.hit == "" {
				continue
			}
			what := fmt.Sprintf("mutation of a log of size %d while its database operation %d of %d (%s) fails", w.n(), at, dry.count, f.hit)
			if err != nil {
				k.Assert(reflect.DeepEqual(s.kv, base.kv), "%s: the database has changed", what)
				k.Assert(cw.tree.TreeHead().TreeSize == w.n(), "%s: the log believes to have size %d", what, cw.tree.TreeHead().TreeSize)
				if r.P(0.3) {
					cw.inspect(what, !gone)
				}
				if r.P(0.3) {
					cw.reload()
				}
				// The same again, and maybe something else.
				if r.P(0.3) {
					cw.MustMutate([]Add{{Label: cw.names[r.Intn(len(cw.names))], Value: cw.newValue()}}, nil)
				} else {
					in, next := cw.lower(adds, removes)
					update, err := cw.tree.Mutate(in, removes)
					k.Assert(err == nil, "%s: repeated, it fails: %v", what, err)
					cw.adopt(update, adds, removes, next)
				}
			}
			cw.inspect(what, !gone)
			if !gone {
				c2 := old.clone()
				c2.w = cw
				_, out := c2.Search(cw.names[0], nil)
				k.Assert(out.ok() || out.srv == nil && isNotFound(out.err) && len(cw.cur[string(cw.names[0])]) == 0, "%s: later search: %v", what, out)
			}
			k.Eval("mutate %s %d %v", f.hit, at, err != nil)
			if err != nil {
				k.Count("mutations that failed with the database", 1)
			} else {
				k.Count("mutations that did not need the operation", 1)
			}
		}
		w.MustMutate(adds, removes)
	}
}

func p33Client(k *Case) {
	w := p33World(k)
	actors := p33Actors(w)
	for round := 0; round < 8; round++ {
		cl := actors[k.R.Intn(len(actors))]
		o := cl.p33Op()
		try := func(f *faults) (*Client, opResult) {
			cw := w.Clone()
			c2 := cl.with(cw, f)
			f.on = true
			res := c2.do(o, cw, tamper{})
			f.on = false
			return c2, res
		}
		dry := &faults{}
		_, want := try(dry)
		if want.idle || class(want) == "client error" || want.srv != nil {
			k.Count("operation not possible", 1)
			continue
		}
		for at := 1; at <= dry.count; at++ {
			for _, rest := range []bool{false, true} {
				f := &faults{at: at, rest: rest}
				c2, res := try(f)
				if f.hit == "" {
					continue
				}
				what := fmt.Sprintf("%s of %q (version %d) by a client at size %d while operation %d of %d of its database (%s) fails", o.kind, o.label, o.ver, cl.size(), at, dry.count, f.hit)
				k.Assert(res.err != nil && errors.Is(res.err, errInjected), "%s: the client reports %q (%v)", what, class(res), res.err)
				if o.kind != "update" {
					k.Assert(c2.st.equal(cl.st), "%s: the client's state changed", what)
				}
				c2.checkState()
				again := c2.do(o, c2.w, tamper{})
				k.Assert(again.idle || class(again) == class(want), "%s: repeated, the outcome is %q (%v, %v), it should be %q", what, class(again), again.srv, again.err, class(want))
				c2.checkState()
				k.Eval("client %s %s %v", o.kind, f.hit, rest)
				k.Count("client: "+o.kind+" "+f.hit, 1)
			}
		}
		// Go on with the operation done.
		if o.kind != "update" {
			cl.do(o, w, tamper{})
		}
	}
}

type faultyAuditorStore struct {
	auditorStore
	f *faults
}

func (s *faultyAuditorStore) GetState() ([]byte, error) {
	if err := s.f.step("GetState"); err != nil {
		return nil, err
	}
	return s.auditorStore.GetState()
}

// p33Open has the databases fail when a log or an auditor is started.
func p33Open(k *Case) {
	cfg := genCfg(k.R)
	cfg.Mode = structs.ThirdPartyAuditing
	w := newWorld(k, cfg)
	w.Grow(k.R.Range(1, 8))
	f := &faults{}
	for at := 0; ; at++ {
		*f = faults{on: true, at: at, rest: k.R.P(0.5)}
		t, err := transparency.NewTree(w.priv, faultyStore{w.store, f}, w.updates)
		if f.hit == "" {
			k.Assert(err == nil, "log can not be opened: %v", err)
			f.on = false
			k.Assert(t.TreeHead().TreeSize == w.n(), "log of %d entries opened as one of %d", w.n(), t.TreeHead().TreeSize)
			if at > 0 {
				break
			}
			continue
		}
		k.Assert(err != nil, "log was opened although its database failed (%s)", f.hit)
		k.Eval("open log %s", f.hit)
	}
	st := &faultyAuditorStore{f: &faults{}}
	a := must(auditor.NewAuditor(w.pub, w.audKey, st))
	for i, e := range w.hist {
		if e.Update == nil {
			break
		}
		u := must(structs.NewAuditorUpdate(w.cs, bytes.NewBuffer(e.Update)))
		if err := a.Process(u); err != nil {
			k.Skip() // P09 decides this.
		}
		*st.f = faults{on: true, at: 1}
		_, err := auditor.NewAuditor(w.pub, w.audKey, st)
		k.Assert(err != nil, "auditor of %d entries was started although its database failed", i+1)
		st.f.on = false
		a, err = auditor.NewAuditor(w.pub, w.audKey, st)
		k.Assert(err == nil, "auditor can not be restarted: %v", err)
		k.Eval("open auditor %d", i)
	}
}
