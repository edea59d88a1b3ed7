//go:build P09

package main

import (
	"bytes"
	"reflect"
	"sort"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P09", Level: "exploration", Min: 5000,
		Rule: "histories of the real server (all label operations, removals, re-creations, empty entries, all window sizes) and of synthetic logs with clustered VRF outputs, audited by four auditors (one that commits every entry, one that restarts every time, one that skips commits and is fed again after a restart, one whose database fails now and then); the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one audited entry, keyed by shape",
		Run:  runP09,
	})
}

type audit struct {
	k      *Case
	pub    *structs.PublicConfig
	cs     suites.CipherSuite
	key    suites.SigningPrivateKey
	stores [4]*auditorStore
	auds   [4]interface {
		Process(*structs.AuditorUpdate) error
		Commit() (*structs.AuditorTreeHead, error)
	}
	raw  [][]byte // all updates
	lazy int      // entries the lazy auditor has committed
}

func newAudit(k *Case, pub *structs.PublicConfig, cs suites.CipherSuite, key suites.SigningPrivateKey) *audit {
	a := &audit{k: k, pub: pub, cs: cs, key: key}
	for i := range a.stores {
		a.stores[i] = &auditorStore{}
		a.auds[i] = newAuditor(k, pub, key, a.stores[i])
	}
	return a
}

func (a *audit) restart(i int) { a.auds[i] = newAuditor(a.k, a.pub, a.key, a.stores[i]) }

func (a *audit) process(i int, raw []byte) {
	u := wireUpdate(a.k, a.cs, raw)
	err := a.auds[i].Process(u)
	a.k.Assert(err == nil, "auditor %d rejects the honest update of entry %d (+%d -%d): %v", i, len(a.raw)-1, len(u.Added), len(u.Removed), err)
}

// entry processes the next update everywhere.
func (a *audit) entry(raw []byte, ts []uint64, leaves [][]byte) *structs.AuditorTreeHead {
	k := a.k
	a.raw = append(a.raw, raw)
	n := len(a.raw)
	var out *structs.AuditorTreeHead
	for i := 0; i < 2; i++ {
		if i == 1 {
			a.restart(i)
		}
		a.process(i, raw)
		head, err := a.auds[i].Commit()
		k.Assert(err == nil, "auditor %d can not commit entry %d: %v", i, n-1, err)
		checkHead(k, a.pub, head, ts, leaves)
		out = head
	}
	s0, s1 := auditorState(k, a.cs, a.stores[0].state), auditorState(k, a.cs, a.stores[1].state)
	k.Assert(reflect.DeepEqual(s0, s1), "states of restarted and continuing auditor differ at size %d: %+v %+v", n, s0, s1)
	// Committing again doesn't change anything.
	if k.R.P(0.1) {
		head, err := a.auds[1].Commit()
		k.Assert(err == nil && reflect.DeepEqual(head, out), "committing twice gives a different head (%v)", err)
	}

	// The lazy one.
	a.process(2, raw)
	if k.R.P(0.25) {
		a.restart(2) // what wasn't committed is lost
		for _, u := range a.raw[a.lazy:] {
			a.process(2, u)
		}
	}
	if k.R.P(0.3) {
		head, err := a.auds[2].Commit()
		k.Assert(err == nil, "auditor can not commit several entries: %v", err)
		checkHead(k, a.pub, head, ts, leaves)
		a.lazy = n
		s2 := auditorState(k, a.cs, a.stores[2].state)
		k.Assert(reflect.DeepEqual(s0, s2), "states of auditors that commit rarely and always differ at size %d", n)
	}

	// The one with the failing database.
	a.process(3, raw)
	a.stores[3].fail = k.R.P(0.4)
	head, err := a.auds[3].Commit()
	if a.stores[3].fail {
		k.Assert(err != nil, "auditor claims to have committed to a failing database")
		a.stores[3].fail = false
		if k.R.P(0.5) {
			head, err = a.auds[3].Commit()
		} else {
			head, err = nil, nil
		}
	}
	k.Assert(err == nil, "auditor can not commit after its database failed: %v", err)
	if head != nil {
		checkHead(k, a.pub, head, ts, leaves)
		k.Assert(a.stores[3].state != nil, "auditor signed a tree head without storing its state")
		s3 := auditorState(k, a.cs, a.stores[3].state)
		k.Assert(reflect.DeepEqual(s0, s3), "auditor signed size %d while its stored state is of size %d", n, s3.TreeHead.TreeSize)
		a.restart(3)
	}
	return out
}

func runP09(c *Ctx) {
	c.Each("server", c.N(250, 6000), func(k *Case) {
		clear(vrfCache)
		cfg := genCfg(k.R)
		cfg.Mode = structs.ThirdPartyAuditing
		cfg.AudGap = 0
		w := newWorld(k, cfg)
		a := newAudit(k, w.pub, w.cs, w.audKey)
		removals, recreated := 0, 0
		ever, gone := make(map[string]bool), make(map[string]bool)
		for i := k.R.Range(5, 40); i > 0; i-- {
			w.advance()
			adds := w.genAdds()
			var removes [][]byte
			cand := w.removable()
			for try := 0; try < 6; try++ {
				removes = nil
				for _, l := range cand {
					if k.R.P(0.4) {
						removes = append(removes, l)
					}
				}
				if !w.collapsing(adds, removes) {
					break
				}
				removes = nil
			}
			w.MustMutate(adds, removes)
			for _, l := range removes {
				removals++
				gone[string(l)] = true
				ever[string(l)] = true
			}
			for _, x := range adds {
				if ever[string(x.Label)] {
					recreated++
					delete(ever, string(x.Label))
				}
			}
			e := w.hist[w.n()-1]
			if e.Update == nil {
				k.Skip() // too large for the wire
			}
			u := wireUpdate(k, w.cs, e.Update)
			w.checkUpdate(k, u, adds, e)
			head := a.entry(e.Update, w.ts(), w.leaves(w.n()))
			w.publishHead(head)
			k.Eval("server n%d +%d -%d rm%d", min(w.n(), 40), min(len(u.Added), 6), min(len(u.Removed), 6), len(removes))
		}
		k.Count("labels removed", removals)
		k.Count("labels re-created", recreated)
		// What the auditor has signed is accepted by clients.
		cl := w.newClient()
		for _, l := range w.names {
			if gone[string(l)] {
				continue // see P29
			}
			_, out := cl.Search(l, nil)
			if len(w.cur[string(l)]) > 0 {
				k.Assert(out.ok(), "search with the real auditor's head failed: %v", out)
			} else {
				k.Assert(isNotFound(out.err), "search for a missing label with the real auditor's head: %v", out.err)
			}
		}
	})
	c.Each("synthetic", c.N(300, 10000), func(k *Case) {
		l := newAuditedLog(k)
		a := newAudit(k, l.pub, l.cs, l.key)
		for i := k.R.Range(5, 60); i > 0; i-- {
			l.advance()
			add, remove := l.plan()
			u := l.update(l.now, add, remove)
			l.apply(l.now, add, remove)
			raw := mustMarshal(u)
			a.entry(raw, l.ts, l.leaves())
			k.Count("entries removed", len(remove))
			k.Eval("synthetic n%d +%d -%d of %d", min(l.n(), 60), min(len(add), 10), min(len(remove), 10), min(len(l.sets[l.ver()]), 20))
		}
	})
	c.Each("huge", c.N(40, 3000), func(k *Case) { deepAudit(k, k.R.Range(10, 40), 0) })
	c.Each("long", c.N(4, 60), func(k *Case) {
		// Long logs with little in them, for the frontier and the timestamps.
		l := newAuditedLog(k)
		l.size = 1
		a := newAudit(k, l.pub, l.cs, l.key)
		for i := 0; i < c.N(200, 600); i++ {
			l.advance()
			var add []prefix.Entry
			var remove [][]byte
			if k.R.P(0.4) {
				add, remove = l.plan()
			}
			u := l.update(l.now, add, remove)
			l.apply(l.now, add, remove)
			a.entry(mustMarshal(u), l.ts, l.leaves())
			k.Eval("long n%d", l.n())
		}
	})
	c.Each("collapse", 1, func(k *Case) {
		// Known finding: the removal of an entry whose sibling is a leaf.
		l := newAuditedLog(k)
		a := newAudit(k, l.pub, l.cs, l.key)
		x, y := make([]byte, 32), make([]byte, 32)
		y[0] = 0x80
		com := k.R.Bytes(32)
		step := func(add []prefix.Entry, remove [][]byte) []byte {
			u := l.update(l.now, add, remove)
			l.apply(l.now, add, remove)
			return mustMarshal(u)
		}
		l.now = 1
		a.entry(step([]prefix.Entry{{VrfOutput: x, Commitment: com}, {VrfOutput: y, Commitment: com}}, nil), l.ts, l.leaves())
		for i := 0; i < 3; i++ {
			l.now += 10 * l.rmw
			a.entry(step(nil, nil), l.ts, l.leaves())
		}
		l.now += 10 * l.rmw
		u := wireUpdate(k, l.cs, step(nil, [][]byte{x}))
		err := a.auds[0].Process(u)
		k.Assert(err == nil, "removal rejected: %v", err)
		head, err := a.auds[0].Commit()
		k.Assert(err == nil, "commit failed: %v", err)
		tbs := mustMarshal(&structs.AuditorTreeHeadTBS{Config: l.pub, Timestamp: head.Timestamp, TreeSize: head.TreeSize, Root: refLogRoot(l.leaves())})
		if !l.pub.AuditorPublicKey.Verify(tbs, head.Signature) {
			k.Known("auditor-collapse")
		}
		k.Eval("collapse")
	})
}

// checkUpdate compares the content of an update with what was done.
func (w *World) checkUpdate(k *Case, u *structs.AuditorUpdate, adds []Add, e Entry) {
	n := int(w.n()) - 1
	before := map[string][]Ver{}
	if n > 0 {
		before = w.hist[n-1].Labels
	}
	want := make(map[string][]byte)
	for l, vs := range e.Labels {
		for v, ver := range vs {
			if ver.Pos == uint64(n) {
				oav := w.stored([]byte(l), uint32(v))
				k.Assert(oav != nil, "version %d of %q is not stored", v, l)
				want[string(w.vrfCached(l, uint32(v)))] = w.commit([]byte(l), uint32(v), oav)
			}
		}
	}
	k.Assert(u.Timestamp == e.Ts, "update has timestamp %d, log entry %d", u.Timestamp, e.Ts)
	k.Assert(len(u.Added) == len(want), "update adds %d entries instead of %d", len(u.Added), len(want))
	for _, x := range u.Added {
		k.Assert(bytes.Equal(want[string(x.VrfOutput)], x.Commitment), "update adds an entry that was not added")
	}
	var rm [][]byte
	for _, l := range e.Removed {
		for v := range before[l] {
			rm = append(rm, w.vrfCached(l, uint32(v)))
		}
	}
	sort.Slice(rm, func(i, j int) bool { return bytes.Compare(rm[i], rm[j]) < 0 })
	k.Assert(equalAll(rm, vrfsOf(u.Removed)), "update removes %d entries, not those %d of the removed labels", len(u.Removed), len(rm))
}
