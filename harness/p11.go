//go:build P11

package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P11", Level: "exploration", Min: 3000,
		Rule: "histories of mutations (many versions of a label at once, interleaved labels, removal and re-creation in one step, up to hundreds of versions) over a database with commit semantics; between them, mutations that fail because of the clock, ineligible removals, over-long labels, or a failing database at every single read, write of the trees, or commit; after each, the complete content is compared with a model and used by clients and an auditor; the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one comparison, keyed by the failure and the size",
		Run:  runP11,
	})
}

// attempt makes a mutation that fails. It returns a description, or "" if there
// was nothing to fail.
func (w *World) attempt(s *txStore) string {
	k, r := w.k, w.k.R
	adds := w.genAdds()
	if len(adds) == 0 && r.P(0.7) {
		adds = []Add{{Label: pick(r, w.names...), Value: w.newValue()}}
	}
	var removes [][]byte
	for _, l := range w.removable() {
		if r.P(0.3) {
			removes = append(removes, l)
		}
	}
	now := w.now
	defer w.setNow(now)
	inHist := w.n()
	fail := func(what string) string {
		err := w.Mutate(adds, removes)
		k.Assert(err != nil, "a mutation succeeded although it should have failed: %s", what)
		k.Assert(w.n() == inHist, "harness")
		return what
	}
	switch r.Intn(6) {
	case 0:
		if w.n() == 0 || w.hist[w.n()-1].Ts == 0 {
			return ""
		}
		w.setNow(w.hist[w.n()-1].Ts - 1)
		return fail("clock")
	case 1:
		for _, l := range w.names {
			vs := w.cur[string(l)]
			ok := len(vs) > 0
			for _, x := range w.removable() {
				ok = ok && !bytes.Equal(x, l)
			}
			if ok {
				removes = append(removes, l)
				return fail("recent removal")
			}
		}
		return ""
	case 2:
		adds = append(adds, Add{Label: bytes.Repeat([]byte{1}, 256+r.Intn(100)), Value: w.newValue(), Sig: []byte{}})
		return fail("long label")
	case 3:
		// Reads fail from the i-th on.
		i, cnt := r.Intn(60), 0
		s.onRead = func(key string) error {
			cnt++
			if cnt > i {
				return errInjected
			}
			return nil
		}
		defer func() { s.onRead = nil }()
		return w.maybeFail(adds, removes, s, fmt.Sprintf("read"), func() bool { return cnt > i })
	case 4:
		i, cnt := r.Intn(12), 0
		s.onWrite = func(key string) error {
			if key[0] != 'p' && key[0] != 'l' && key[0] != 't' {
				return nil
			}
			cnt++
			if cnt > i {
				return errInjected
			}
			return nil
		}
		defer func() { s.onWrite = nil }()
		return w.maybeFail(adds, removes, s, "write", func() bool { return cnt > i })
	default:
		s.onCommit = func() error { return errInjected }
		defer func() { s.onCommit = nil }()
		return fail("commit")
	}
}

// maybeFail is for failures that may come too late to matter.
func (w *World) maybeFail(adds []Add, removes [][]byte, s *txStore, what string, hit func() bool) string {
	before := make(map[string][]byte, len(s.kv))
	for a, b := range s.kv {
		before[a] = b
	}
	in, next := w.lower(adds, removes)
	update, err := w.tree.Mutate(in, removes)
	s.onRead, s.onWrite = nil, nil
	if err == nil {
		w.k.Assert(!hit(), "a mutation ignored the failure of a %s", what)
		w.adopt(update, adds, removes, next)
		return ""
	}
	w.k.Assert(reflect.DeepEqual(before, s.kv), "a failed mutation has changed the database")
	return what
}

func runP11(c *Ctx) {
	c.Each("history", c.N(240, 8000), func(k *Case) {
		r := k.R
		s := newTxStore()
		w := newWorldStore(k, genCfg(r), s)
		longLived := w.newClient()
		anyGone := func() bool {
			for _, e := range w.hist {
				if len(e.Removed) > 0 {
					return true
				}
			}
			return false
		}
		for i := r.Range(4, 16); i > 0; i-- {
			for j := r.Intn(4); j > 0; j-- {
				if what := w.attempt(s); what != "" {
					k.Count("failed: "+what, 1)
					if r.P(0.3) {
						w.reload()
					}
					w.inspect("after failure: "+what, !anyGone())
				}
			}
			w.advance()
			adds := w.genAdds()
			if r.P(0.03) {
				l := pick(r, w.names...)
				for j := r.Range(100, 190); j > 0; j-- {
					adds = append(adds, Add{Label: l, Value: w.newValue()})
				}
			}
			var removes [][]byte
			if r.P(0.25) {
				for _, l := range w.removable() {
					if r.P(0.5) {
						removes = append(removes, l)
						if r.P(0.3) {
							removes = append(removes, l) // said twice
						}
					}
				}
			}
			if r.P(0.1) {
				removes = append(removes, []byte("never existed"))
			}
			w.MustMutate(adds, removes)
			if r.P(0.3) {
				w.reload()
			}
			w.inspect("after mutation", !anyGone())
			for _, l := range w.names {
				if anyGone() || !r.P(0.3) {
					continue
				}
				res, out := longLived.Search(l, nil)
				if vs := w.cur[string(l)]; len(vs) == 0 {
					k.Assert(out.srv == nil && isNotFound(out.err), "client that has been there all the time: search for %q: %v", l, out)
				} else {
					k.Assert(out.ok() && *res.Version == uint32(len(vs)-1), "client that has been there all the time: search for %q: %v", l, out)
				}
			}
		}
		if k.Idx < 2 {
			k.Sample("%v: %d entries", w.cfg, w.n())
		}
	})
	c.Each("huge", c.N(24, 2000), func(k *Case) { deepRun(k, pick(k.R, 5, 40, 400), k.R.Range(20, 60), 0.3, 0.1, 0.1) })
	c.Each("audit", c.N(60, 1500), func(k *Case) {
		// An auditor is not confused by failed mutations.
		s := newTxStore()
		cfg := genCfg(k.R)
		cfg.Mode = structs.ThirdPartyAuditing
		w := newWorldStore(k, cfg, s)
		store := &auditorStore{}
		var a *auditor.Auditor = newAuditor(k, w.pub, w.audKey, store)
		done := uint64(0)
		for i := 0; i < 10; i++ {
			w.attempt(s)
			w.advance()
			w.MustMutate(w.genAdds(), nil)
			for ; done < w.n(); done++ {
				if len(w.hist[done].Removed) > 0 || w.hist[done].Update == nil {
					k.Skip() // a removal happened after all
				}
				u := wireUpdate(k, w.cs, w.hist[done].Update)
				if len(u.Removed) > 0 {
					k.Skip()
				}
				err := a.Process(u)
				k.Assert(err == nil, "auditor rejects entry %d: %v", done, err)
			}
			head, err := a.Commit()
			k.Assert(err == nil, "auditor: %v", err)
			checkHead(k, w.pub, head, w.ts(), w.leaves(w.n()))
			k.Eval("audit %d", w.n())
		}
	})
	c.Each("each", c.N(16, 200), func(k *Case) {
		// One and the same mutation fails at every read and tree write, one after
		// the other, and at the commit.
		s := newTxStore()
		w := newWorldStore(k, genCfg(k.R), s)
		w.Grow(k.R.Range(1, 12))
		w.advance()
		adds := w.genAdds()
		for len(adds) == 0 {
			adds = w.genAdds()
		}
		var removes [][]byte
		in, _ := w.lower(adds, removes)
		for kind := 0; kind < 2; kind++ {
			for i := 0; ; i++ {
				cnt := 0
				f := func(key string) error {
					if kind == 1 && key[0] != 'p' && key[0] != 'l' && key[0] != 't' {
						return nil
					}
					cnt++
					if cnt == i+1 {
						return errInjected
					}
					return nil
				}
				before := make(map[string][]byte, len(s.kv))
				for a, b := range s.kv {
					before[a] = b
				}
				if kind == 0 {
					s.onRead = f
				} else {
					s.onWrite = f
				}
				s.onCommit = func() error { return errInjected }
				_, err := w.tree.Mutate(in, removes)
				s.onRead, s.onWrite, s.onCommit = nil, nil, nil
				k.Assert(err != nil, "mutation ignores a failure of the database")
				k.Assert(reflect.DeepEqual(before, s.kv), "failed mutation has changed the database")
				w.inspect(fmt.Sprintf("each %d %d", kind, i), i%5 == 0)
				if cnt <= i {
					break
				}
			}
		}
		w.MustMutate(adds, removes)
		w.inspect("after all", true)
	})
}
