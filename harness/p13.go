//go:build P13

package main

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P13", Level: "exploration", Min: 2000,
		Rule: "readers in goroutines of their own serve requests of persistent and new clients from clones of a LevelDB database, with a tree per request, per session or shared, while a writer commits entries (and auditor heads); reads are delayed at random so that commits fall between any two of them; built with the race detector. Every answer has to be accepted, and is compared afterwards with the model at the tree size it is for; an evaluation is one request, keyed by operation and by how many commits happened during it. Writes through clones have to be refused and change nothing",
		Run:  runP13,
	})
}

// seen is an answer that was accepted.
type seen struct {
	op       string
	n        uint64
	label    []byte
	ver      *uint32 // requested
	got      *uint32
	value    []byte
	notFound bool
	all      []Ver
}

func runP13(c *Ctx) {
	c.Each("beside", c.N(48, 900), func(k *Case) { p13Beside(k) })
	c.Each("heads", c.N(24, 300), p13Heads)
	c.Each("refuse", c.N(40, 300), func(k *Case) { p13Refuse(k) })
}

func p13Beside(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	store, done, err := openLDB(dir)
	check(err)
	defer done()
	cfg := genCfg(r)
	if r.P(0.7) {
		cfg.Suite = 2
	}
	w := newWorldStore(k, cfg, store)
	w.MustMutate([]Add{{Label: []byte("first"), Value: w.newValue()}}, nil)
	owned := [][]byte{[]byte("owned"), []byte("owned2")}
	for i := r.Range(1, 6); i > 0; i-- {
		w.advance()
		adds := w.genAdds()
		for _, l := range owned {
			if r.P(0.5) {
				adds = append(adds, Add{Label: l, Value: w.newValue()})
			}
		}
		w.MustMutate(adds, nil)
	}
	var commits atomic.Uint64
	commits.Store(w.n())
	slow := &lockedRand{r: newRand(r.Int63()), rate: pick(r, 0.02, 0.2, 0.5)}
	var c crew
	var mu sync.Mutex
	var log []seen
	overlap := make(map[string]int)
	names := append(append([][]byte{}, w.names...), owned...)
	names = append(names, []byte("missing"))
	var shared atomic.Pointer[transparency.Tree]
	base := slowStore{store.Clone(), slow}
	newTree := func() *transparency.Tree {
		t, err := transparency.NewTree(w.priv, base.Clone(), nil)
		if err != nil {
			panic(caseFailed{fmt.Sprintf("tree can't be loaded beside the writer: %v", err)})
		}
		return t
	}
	shared.Store(newTree())
	proto := *w
	proto.hist, proto.cur, proto.tree, proto.store = nil, nil, nil, nil
	proto.noClock = true
	var views []*Client
	reader := func(kind int, rr *Rand) func() {
		view := proto
		v := &view
		v.k = &Case{Ctx: k.Ctx, Name: k.Name, Idx: k.Idx, R: rr}
		v.r = rr
		v.names = names
		cl := v.newClient()
		mu.Lock()
		views = append(views, cl)
		mu.Unlock()
		return func() {
			for !c.stop.Load() {
				switch kind {
				case 0, 1, 2:
					v.tree = newTree()
				default:
					v.tree = shared.Load()
					cl = v.newClient() // may have seen something newer than the tree
				}
				for i := rr.Range(1, 3); i > 0; i-- {
					before := commits.Load()
					s := v.p13Op(cl, owned)
					after := commits.Load()
					mu.Lock()
					overlap[fmt.Sprintf("%s commits+%d", s.op, min(after-before, 5))]++
					overlap[fmt.Sprintf("%s behind%d", s.op, min(after-s.n, 8))]++
					log = append(log, s)
					mu.Unlock()
				}
			}
		}
	}
	for i := 0; i < 5; i++ {
		c.spawn(reader(i, newRand(r.Int63())))
	}
	c.spawn(func() {
		for !c.stop.Load() {
			shared.Store(newTree())
			time.Sleep(time.Millisecond)
		}
	})
	c.spawn(func() {
		defer c.stop.Store(true)
		w.beforePublish = func() { commits.Store(w.n()) }
		for i := r.Range(10, 30); i > 0 && !c.stop.Load(); i-- {
			w.advance()
			w.MustMutate(w.genAdds(), nil)
			commits.Store(w.n())
			time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
		}
	})
	c.wait(k)
	w.beforePublish = nil

	// What was observed has to agree with the model.
	for _, s := range log {
		k.Assert(s.n >= 1 && s.n <= w.n(), "answer for a tree of size %d, there are %d entries", s.n, w.n())
		vs := w.hist[s.n-1].Labels[string(s.label)]
		switch s.op {
		case "search":
			if s.ver != nil && int(*s.ver) < len(vs) {
				k.Assert(!s.notFound && bytes.Equal(s.value, vs[*s.ver].Value), "version %d of %q at tree size %d: %.20q, not found: %v", *s.ver, s.label, s.n, s.value, s.notFound)
			} else if s.ver != nil || len(vs) == 0 {
				k.Assert(s.notFound, "%q version %v was found at tree size %d, where it does not exist", s.label, verStr(s.ver), s.n)
			} else {
				k.Assert(!s.notFound && s.got != nil && *s.got == uint32(len(vs)-1) && bytes.Equal(s.value, vs[len(vs)-1].Value), "greatest version of %q at tree size %d is %v, not %d; not found: %v", s.label, s.n, s.got, len(vs)-1, s.notFound)
			}
		case "versions":
			k.Assert(len(s.all) == len(vs), "%q is said to have %d versions at tree size %d, not %d", s.label, len(s.all), s.n, len(vs))
			for i := range vs {
				k.Assert(s.all[i].Pos == vs[i].Pos && bytes.Equal(s.all[i].Value, vs[i].Value), "version %d of %q at tree size %d is wrong", i, s.label, s.n)
			}
		}
	}
	for _, cl := range views {
		cl.w.hist = w.hist
		cl.checkState()
	}
	for key, cnt := range overlap {
		for i := 0; i < cnt; i++ {
			k.Eval("%s", key)
		}
		k.Count(key, cnt)
	}
	k.Count("accepted answers", len(log))
	w.inspect("in the end", true)
}

// p13Op makes a request; the answer has to be accepted.
func (v *World) p13Op(cl *Client, owned [][]byte) seen {
	k, r := v.k, v.k.R
	s := seen{n: v.tree.TreeHead().TreeSize}
	switch r.Intn(10) {
	case 0:
		if cl.State() != nil {
			s.op, s.label = "init", pick(r, owned...)
			if cl.Label(s.label) != nil {
				break
			}
			req, _, out := cl.OwnerInit(s.label)
			if req == nil {
				break // no distinguished log entry yet
			}
			k.Assert(out.ok(), "%q can not be initialised: %v", s.label, out)
			return s
		}
	case 1, 2:
		if cl.State() == nil {
			break
		}
		s.op = "monitor"
		req, out := cl.Monitor()
		if req == nil {
			break // nothing to do yet
		}
		k.Assert(out.ok(), "monitoring fails: %v", out)
		return s
	case 3:
		s.op, s.label = "versions", pick(r, v.names...)
		got, err := v.versions(s.label)
		k.Assert(err == nil, "versions of %q: %v", s.label, err)
		s.all = got
		return s
	}
	s.op = "search"
	s.label = pick(r, v.names...)
	if r.P(0.4) {
		s.ver = ptr(uint32(r.Intn(4)))
	}
	res, out := cl.Search(s.label, s.ver)
	if out.srv == nil && isNotFound(out.err) {
		s.notFound = true
		return s
	}
	k.Assert(out.ok(), "search for %q, %s at tree size %d: %v", s.label, verStr(s.ver), s.n, out)
	if size := cl.size(); size != s.n {
		k.Fail("search made the client adopt a tree of size %d, the server was at %d", size, s.n)
	}
	s.got, s.value = res.Version, res.Value.Value
	return s
}

func p13Refuse(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	store, done, err := openLDB(dir)
	check(err)
	defer done()
	cfg := genCfg(r)
	cfg.Suite = 2
	w := newWorldStore(k, cfg, store)
	w.Grow(r.Range(1, 6))
	for round := 0; round < 4; round++ {
		clone := store.Clone()
		if r.P(0.3) {
			clone = clone.Clone()
		}
		l := pick(r, w.names...)
		junk := r.Bytes(r.Range(0, 20))
		tree, err := transparency.NewTree(w.priv, clone, nil)
		k.Assert(err == nil, "tree over a clone: %v", err)
		_, aud, _ := store.GetTreeHead()
		ops := map[string]func() error{
			"PutTreeHead":        func() error { return clone.PutTreeHead(junk) },
			"PutAuditorTreeHead": func() error { return clone.PutAuditorTreeHead(junk) },
			"PutIndex":           func() error { return clone.PutIndex(l, junk) },
			"DeleteIndex":        func() error { return clone.DeleteIndex(l) },
			"PutVersion":         func() error { return clone.PutVersion(l, 0, junk) },
			"DeleteVersion":      func() error { return clone.DeleteVersion(l, 0) },
			"Put":                func() error { return clone.Put(0, junk) },
			"Delete":             func() error { return clone.Delete(0) },
			"LogStore.Put":       func() error { return clone.LogStore().Put(0, junk) },
			"LogStore.Delete":    func() error { return clone.LogStore().Delete(0) },
			"PrefixStore.Put":    func() error { return clone.PrefixStore().Put("1", junk) },
			"PrefixStore.Delete": func() error { return clone.PrefixStore().Delete("1") },
			"Commit":             func() error { return clone.Commit() },
			"Mutate": func() error {
				_, err := tree.Mutate([]transparency.LabelValue{{Label: l, Value: structs.UpdateValue{Value: junk}}}, nil)
				return err
			},
		}
		for _, name := range sortedKeys(ops) {
			f := ops[name]
			if !r.P(0.6) {
				continue
			}
			refused := func() (refused bool) {
				defer func() {
					if recover() != nil {
						refused = true
					}
				}()
				return f() != nil
			}()
			k.Assert(refused, "a read-only clone accepts %s", name)
			k.Eval("refuse %s %d", name, w.n())
			// Neither this clone's successors nor the database have it.
			other := w.over(store.Clone(), w.n())
			other.tree, err = transparency.NewTree(w.priv, other.store, nil)
			k.Assert(err == nil, "tree after refused %s: %v", name, err)
			_, aud2, _ := other.store.GetTreeHead()
			k.Assert(bytes.Equal(aud, aud2), "a refused %s has reached the database", name)
			other.updates = make(chan transparency.UpdateRequest)
			other.inspect("after refused "+name, r.P(0.2))
		}
		w.advance()
		w.MustMutate(w.genAdds(), nil)
		w.inspect("after refused writes and a mutation", true)
	}
	// Nor does it show up after a restart.
	cp := scratchDir()
	defer removeDir(cp)
	writeFiles(cp, dirFiles(dir))
	s2, done2, err := openLDB(cp)
	k.Assert(err == nil, "restart: %v", err)
	defer done2()
	w2 := w.over(s2, w.n())
	w2.updates = make(chan transparency.UpdateRequest)
	w2.reload()
	w2.inspect("after a restart", true)
}

// p13Heads has readers fetch the tree heads as fast as they can while entries
// and the auditor's tree heads for them are committed in turn, as fast as
// possible. What is read together has to fit together.
func p13Heads(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	store, done, err := openLDB(dir)
	check(err)
	defer done()
	enc := func(i uint64) []byte { return []byte(fmt.Sprint(i)) }
	n := r.Range(1500, 3000)
	together := r.P(0.3) // both are part of one commit
	var stop atomic.Bool
	var c crew
	var mu sync.Mutex
	bad := ""
	reads, moved := 0, 0
	for g := r.Range(2, 6); g > 0; g-- {
		cl := store.Clone()
		c.spawn(func() {
			var last [2]uint64
			cnt, mv := 0, 0
			for !stop.Load() {
				head, aud, err := cl.GetTreeHead()
				cnt++
				var h, a uint64
				if err == nil {
					if head != nil {
						_, err = fmt.Sscan(string(head), &h)
					}
					if err == nil && aud != nil {
						_, err = fmt.Sscan(string(aud), &a)
					}
				}
				msg := ""
				if err != nil {
					msg = fmt.Sprintf("tree heads can not be read: %v", err)
				} else if a > h {
					msg = fmt.Sprintf("auditor tree head %d was read together with tree head %d", a, h)
				} else if h < last[0] || a < last[1] {
					msg = fmt.Sprintf("tree heads %d, %d were read after %d, %d", h, a, last[0], last[1])
				}
				if h != last[0] || a != last[1] {
					mv++
				}
				last = [2]uint64{h, a}
				if msg != "" {
					mu.Lock()
					bad = msg
					mu.Unlock()
					break
				}
			}
			mu.Lock()
			reads, moved = reads+cnt, moved+mv
			mu.Unlock()
		})
	}
	// Readers must have a chance even if there is one processor only.
	for i := uint64(1); i <= uint64(n); i++ {
		check(store.PutTreeHead(enc(i)))
		if together {
			check(store.PutAuditorTreeHead(enc(i)))
			check(store.Commit())
		} else {
			check(store.Commit())
			check(store.PutAuditorTreeHead(enc(i)))
			check(store.Commit())
		}
		if i%16 == 0 {
			mu.Lock()
			failed := bad != ""
			mu.Unlock()
			if failed {
				break
			}
		}
	}
	stop.Store(true)
	c.wait(k)
	k.Assert(bad == "", "%s", bad)
	k.Eval("heads moved %v together %v", moved > 100, together)
	k.Count("tree heads read", reads)
	k.Count("changed tree heads read", moved)
}
