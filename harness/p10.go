//go:build P10

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P10", Level: "exploration", Min: 20000,
		Rule: "at every step of synthetic logs, an auditor is fed illegitimate updates of every kind (time rewound, entries re-added, replaced, removed while absent or too recent, wrong commitments, lists unsorted or with duplicates, proofs of other trees, crafted or altered proofs, altered bytes, a first update that doesn't start from the empty tree), judged against the reference set of entries and their positions; a twin that never sees them has to end up in the same state; the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one update fed, keyed by kind, size and error",
		Run:  runP10,
	})
}

// judge says why an update is illegitimate, or "".
func (l *auditedLog) judge(u *structs.AuditorUpdate) string {
	if n := l.n(); n > 0 && u.Timestamp < l.ts[n-1] {
		return "time rewound"
	}
	cur := l.sets[l.ver()]
	removed := make(map[string]bool)
	prev := refPrevDLE(append(append([]uint64(nil), l.ts...), u.Timestamp), l.rmw)
	for i, e := range u.Removed {
		if i > 0 && bytes.Compare(u.Removed[i-1].VrfOutput, e.VrfOutput) >= 0 {
			return "removals not sorted"
		}
		com, ok := cur[string(e.VrfOutput)]
		if !ok {
			return "removal of an absent entry"
		} else if !bytes.Equal(com, e.Commitment) {
			return "removal with a wrong commitment"
		} else if int(l.pos[l.ver()][string(e.VrfOutput)]) > prev {
			return "removal of an entry that was not published in a distinguished log entry"
		}
		removed[string(e.VrfOutput)] = true
	}
	for i, e := range u.Added {
		if i > 0 && bytes.Compare(u.Added[i-1].VrfOutput, e.VrfOutput) >= 0 {
			return "additions not sorted"
		}
		if _, ok := cur[string(e.VrfOutput)]; ok && !removed[string(e.VrfOutput)] {
			return "addition of a present entry"
		}
	}
	return ""
}

type p10 struct {
	*auditedLog
	k     *Case
	a     *auditor.Auditor
	store *auditorStore
	last  []byte // wire form of the last honest update
	olds  [][]byte
}

// fresh returns an auditor in the same state as the one under test.
func (p *p10) fresh() (*auditor.Auditor, *auditorStore) {
	s := &auditorStore{state: bytes.Clone(p.store.state)}
	return newAuditor(p.k, p.pub, p.key, s), s
}

// feed gives an update to the auditor.
func (p *p10) feed(kind string, u *structs.AuditorUpdate) {
	raw, err := structs.Marshal(u)
	if err != nil {
		return
	}
	p.feedRaw(kind, raw)
}

func (p *p10) feedRaw(kind string, raw []byte) {
	k := p.k
	buf := bytes.NewBuffer(bytes.Clone(raw))
	u, err := structs.NewAuditorUpdate(p.cs, buf)
	if err != nil || buf.Len() != 0 {
		k.Eval("%s undecodable", kind)
		return
	}
	why := p.judge(u)
	if why != "" {
		// Goes to the auditor that lives on.
		err := p.a.Process(u)
		k.Assert(err != nil, "auditor accepts an illegitimate update (%s): %s; size %d, +%d -%d", kind, why, p.n(), len(u.Added), len(u.Removed))
		k.Count("illegitimate updates rejected", 1)
		k.Eval("%s %s %d +%d -%d %v", kind, why, min(p.n(), 20), len(u.Added), len(u.Removed), err)
		return
	}
	// The change is legitimate, only the proof may be bad. If it is accepted,
	// the auditor has to arrive at the right tree.
	a, s := p.fresh()
	rejected, _ := p.fresh()
	if err := rejected.Process(wireUpdate(k, p.cs, raw)); err != nil {
		err := p.a.Process(u)
		k.Assert(err != nil, "the same update is rejected and accepted")
		k.Eval("%s legit rejected %d %v", kind, min(p.n(), 20), err)
		return
	}
	check(a.Process(u))
	_, err = a.Commit()
	k.Assert(err == nil, "commit failed: %v", err)
	var remove [][]byte
	for _, e := range u.Removed {
		remove = append(remove, e.VrfOutput)
	}
	cur := p.sets[p.ver()]
	next := applyStep(cur, u.Added, remove)
	if collapses(cur, vrfsOf(u.Added), remove) {
		k.Eval("%s collapse", kind) // see the known finding of P09
		return
	}
	st := auditorState(k, p.cs, s.state)
	want := refPrefixRoot(entriesOf(next))
	k.Assert(bytes.Equal(st.PrefixTree, want), "update (%s; +%d -%d) is accepted but leads to a prefix tree that isn't the one of the changed set", kind, len(u.Added), len(remove))
	k.Assert(st.TreeHead.TreeSize == p.n()+1 && st.TreeHead.Timestamp == u.Timestamp, "accepted update leads to a wrong tree head")
	k.Count("legitimate updates accepted", 1)
	k.Eval("%s accepted %d +%d -%d", kind, min(p.n(), 20), len(u.Added), len(remove))
}

// hostile feeds all kinds of illegitimate updates.
func (p *p10) hostile() {
	k, r := p.k, p.k.R
	cur := p.sets[p.ver()]
	keys := p.keys(p.ver())
	ts := p.now
	elig := p.eligible(ts)
	inElig := make(map[string]bool)
	for _, v := range elig {
		inElig[string(v)] = true
	}
	var recent [][]byte
	for _, v := range keys {
		if !inElig[string(v)] {
			recent = append(recent, v)
		}
	}
	some := func(vs [][]byte, n int) [][]byte {
		out := append([][]byte(nil), vs...)
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out[:min(n, len(out))]
	}
	entry := func(v []byte) prefix.Entry { return prefix.Entry{VrfOutput: v, Commitment: r.Bytes(32)} }
	build := func(add []prefix.Entry, remove [][]byte) *structs.AuditorUpdate {
		sortEntries(add)
		sortBytes(remove)
		return p.update(ts, add, remove)
	}
	add, remove := p.plan()
	honest := func() *structs.AuditorUpdate { return clonePtr(p.update(ts, add, remove)) }

	// Time.
	if n := p.n(); n > 0 && p.ts[n-1] > 0 {
		u := honest()
		u.Timestamp = p.ts[n-1] - pick(r, 1, 1, p.ts[n-1], 1+uint64(r.Intn(int(min(p.ts[n-1], 1000)))))
		p.feed("time", u)
	}
	// Present entries added.
	for _, v := range some(keys, 2) {
		e := entry(v)
		if r.P(0.5) {
			e.Commitment = cur[string(v)]
		}
		a2 := append([]prefix.Entry(nil), e)
		for _, x := range add {
			if !bytes.Equal(x.VrfOutput, v) && r.P(0.5) {
				a2 = append(a2, x)
			}
		}
		sortEntries(a2)
		u := p.update(ts, a2, nil)
		p.feed("present", clonePtr(u))
		// Pretend it is absent.
		for i := 0; i < 4; i++ {
			m := clonePtr(u)
			var results []wireResult
			for _, x := range a2 {
				c := p.candidates(p.ver(), x.VrfOutput)
				results = append(results, pick(r, c...))
			}
			dec, err := p.craft(p.ver(), a2, results).decode(p.cs)
			if err == nil {
				m.Proof = *dec
				p.feed("present crafted", m)
			}
		}
	}
	// Recent entries removed or replaced.
	for _, v := range some(recent, 2) {
		u := build(nil, [][]byte{v})
		p.feed("recent", u)
		u = build([]prefix.Entry{entry(v)}, [][]byte{v})
		p.feed("recent replaced", u)
		u = build(nil, append(some(elig, 2), v))
		p.feed("recent", u)
	}
	// Absent entries removed.
	for _, v := range append(p.someVrfs(p.ver(), 2), r.Bytes(32)) {
		if _, ok := cur[string(v)]; ok {
			continue
		}
		rm := append([][]byte{v}, some(elig, r.Intn(3))...)
		u := build(nil, rm)
		for i := range u.Removed {
			if u.Removed[i].Commitment == nil {
				u.Removed[i].Commitment = r.Bytes(32)
			}
		}
		p.feed("absent", clonePtr(u))
		for i := 0; i < 3; i++ {
			m := clonePtr(u)
			var results []wireResult
			for _, x := range u.Removed {
				results = append(results, pick(r, p.candidates(p.ver(), x.VrfOutput)...))
			}
			if dec, err := p.craft(p.ver(), u.Removed, results).decode(p.cs); err == nil {
				m.Proof = *dec
				p.feed("absent crafted", m)
			}
		}
	}
	// Wrong commitment of a removed entry.
	for _, v := range some(elig, 2) {
		u := clonePtr(build(nil, append(some(elig, r.Intn(2)), v)[:1]))
		u.Removed[0].Commitment = r.Bytes(32)
		p.feed("commitment", u)
		for i := 0; i < 3; i++ {
			m := clonePtr(u)
			res := pick(r, p.candidates(p.ver(), u.Removed[0].VrfOutput)...)
			if dec, err := p.craft(p.ver(), u.Removed, []wireResult{res}).decode(p.cs); err == nil {
				m.Proof = *dec
				p.feed("commitment crafted", m)
			}
		}
	}
	// An entry removed while another lookup ends at its leaf.
	for _, v := range some(elig, 1) {
		w := bytes.Clone(v)
		w[31] ^= 2
		if _, ok := cur[string(w)]; !ok {
			e := []prefix.Entry{entry(w)}
			u := clonePtr(p.update(ts, e, [][]byte{v}))
			u.Removed[0].Commitment = r.Bytes(32)
			all := []prefix.Entry{e[0], u.Removed[0]}
			for i := 0; i < 6; i++ {
				m := clonePtr(u)
				res := []wireResult{pick(r, p.candidates(p.ver(), w)...), pick(r, p.candidates(p.ver(), v)...)}
				if dec, err := p.craft(p.ver(), all, res).decode(p.cs); err == nil {
					m.Proof = *dec
					p.feed("shared leaf", m)
				}
			}
		}
	}
	// Lists out of order or with duplicates.
	if len(add) > 0 {
		u := honest()
		i := r.Intn(len(add))
		u.Added = append(u.Added, u.Added[i])
		u.Proof.Results = append(u.Proof.Results[:len(add):len(add)], append([]prefix.PrefixSearchResult{u.Proof.Results[i]}, u.Proof.Results[len(add):]...)...)
		if r.P(0.5) {
			sort.SliceStable(u.Added, func(i, j int) bool { return bytes.Compare(u.Added[i].VrfOutput, u.Added[j].VrfOutput) < 0 })
		}
		p.feed("duplicate addition", u)
	}
	if len(add) > 1 {
		u := honest()
		i := r.Intn(len(add) - 1)
		u.Added[i], u.Added[i+1] = u.Added[i+1], u.Added[i]
		u.Proof.Results[i], u.Proof.Results[i+1] = u.Proof.Results[i+1], u.Proof.Results[i]
		p.feed("unsorted additions", u)
	}
	if len(remove) > 0 {
		u := honest()
		i := r.Intn(len(remove))
		u.Removed = append(u.Removed, u.Removed[i])
		u.Proof.Results = append(u.Proof.Results, u.Proof.Results[len(add)+i])
		p.feed("duplicate removal", u)
	}
	if len(remove) > 1 {
		u := honest()
		i := r.Intn(len(remove) - 1)
		u.Removed[i], u.Removed[i+1] = u.Removed[i+1], u.Removed[i]
		j := len(add) + i
		u.Proof.Results[j], u.Proof.Results[j+1] = u.Proof.Results[j+1], u.Proof.Results[j]
		p.feed("unsorted removals", u)
	}
	// Proof from another tree.
	if p.ver() > 1 && len(add) > 0 {
		other := uint64(r.Range(1, int(p.ver())))
		if !bytes.Equal(p.roots[other], p.roots[p.ver()]) {
			res := must(prefix.NewTree(p.cs, p.store2()).Search([]prefix.PrefixSearch{{Version: other, VrfOutputs: vrfsOf(add)}}))
			u := p.update(ts, add, nil)
			u.Proof = res[0].Proof
			raw, err := structs.Marshal(u)
			if err == nil {
				err := p.a.Process(wireUpdate(k, p.cs, raw))
				k.Assert(err != nil, "update from another prefix tree than the previous is accepted")
				k.Eval("other tree %v", err)
			}
		}
	}
	if p.ver() > 0 {
		// As if the tree was empty.
		if len(cur) > 0 && len(add) > 0 {
			u := p.update(ts, add, nil)
			u.Proof = prefix.PrefixProof{}
			for range add {
				u.Proof.Results = append(u.Proof.Results, emptyTreeResult(p.cs))
			}
			raw := mustMarshal(u)
			err := p.a.Process(wireUpdate(k, p.cs, raw))
			k.Assert(err != nil, "update that starts from an empty tree is accepted at size %d", p.n())
			k.Eval("empty tree %v", err)
		}
		// Nothing done, but to another tree.
		for _, root := range [][]byte{r.Bytes(32), make([]byte, 32)} {
			if bytes.Equal(root, p.roots[p.ver()]) {
				continue
			}
			u := &structs.AuditorUpdate{Timestamp: ts, Proof: prefix.PrefixProof{Elements: [][]byte{root}}}
			err := p.a.Process(wireUpdate(k, p.cs, mustMarshal(u)))
			k.Assert(err != nil, "empty update that replaces the prefix tree is accepted")
			k.Eval("replaced tree %v", err)
		}
	} else {
		// The first update doesn't start from the empty tree.
		other := newPModel(k)
		other.cs = p.cs
		for len(other.sets[other.ver()]) == 0 {
			other.mutate(other.step(4))
		}
		v := other.vrf()
		res := must(prefix.NewTree(p.cs, other.store).Search([]prefix.PrefixSearch{{Version: other.ver(), VrfOutputs: [][]byte{v}}}))
		u := &structs.AuditorUpdate{Timestamp: ts, Proof: res[0].Proof}
		e := entry(v)
		if com, ok := other.sets[other.ver()][string(v)]; ok {
			e.Commitment = com
			u.Removed = []prefix.Entry{e}
		} else {
			u.Added = []prefix.Entry{e}
		}
		err := p.a.Process(wireUpdate(k, p.cs, mustMarshal(u)))
		k.Assert(err != nil, "first update that doesn't start from the empty prefix tree is accepted")
		u = &structs.AuditorUpdate{Timestamp: ts, Proof: prefix.PrefixProof{Elements: [][]byte{other.roots[other.ver()]}}}
		err = p.a.Process(wireUpdate(k, p.cs, mustMarshal(u)))
		k.Assert(err != nil, "first update that doesn't start from the empty prefix tree is accepted")
		k.Eval("first %v", err)
	}
	// Arbitrary alterations.
	pool := []any{}
	for _, raw := range some(p.olds, 3) {
		pool = append(pool, wireUpdate(k, p.cs, raw))
	}
	mut := &Mutator{r: r, cs: p.cs, Pool: pool}
	for i := 0; i < 10; i++ {
		u := honest()
		d := mut.Mutate(u)
		p.feed("altered", u)
		_ = d
	}
	if raw, err := structs.Marshal(honest()); err == nil {
		for i := 0; i < 4; i++ {
			b := bytes.Clone(raw)
			for j := r.Range(1, 3); j > 0; j-- {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
			p.feedRaw("bytes", b)
		}
	}
	for _, raw := range some(p.olds, 2) {
		p.feedRaw("replay", raw)
	}
}

func (p *p10) store2() prefixStoreIface { return p.auditedLog.store }

type prefixStoreIface interface {
	BatchGet(keys []string) (map[string][]byte, error)
	Put(key string, value []byte) error
	Delete(key string) error
}

func runP10(c *Ctx) {
	c.Each("log", c.N(160, 6000), func(k *Case) {
		l := newAuditedLog(k)
		store, twinStore := &auditorStore{}, &auditorStore{}
		p := &p10{auditedLog: l, k: k, store: store, a: newAuditor(k, l.pub, l.key, store)}
		twin := newAuditor(k, l.pub, l.key, twinStore)
		for i := k.R.Range(4, 24); i > 0; i-- {
			l.advance()
			p.hostile()
			if l.n() > 0 && k.R.P(0.3) {
				// Nothing changed so far.
				before := bytes.Clone(store.state)
				_, err := p.a.Commit()
				k.Assert(err == nil, "commit after rejected updates failed: %v", err)
				k.Assert(bytes.Equal(before, store.state), "rejected updates changed the auditor's state")
			}
			add, remove := l.plan()
			raw := mustMarshal(l.update(l.now, add, remove))
			l.apply(l.now, add, remove)
			p.olds = append(p.olds, raw)
			err := p.a.Process(wireUpdate(k, l.cs, raw))
			k.Assert(err == nil, "after rejecting illegitimate updates, an honest one is rejected: %v", err)
			check(twin.Process(wireUpdate(k, l.cs, raw)))
			head, err := p.a.Commit()
			k.Assert(err == nil, "commit failed: %v", err)
			checkHead(k, l.pub, head, l.ts, l.leaves())
			must(twin.Commit())
			s, t := auditorState(k, l.cs, store.state), auditorState(k, l.cs, twinStore.state)
			k.Assert(reflect.DeepEqual(s, t), "rejected updates have changed the auditor: %v", fmt.Sprintf("%+v %+v", s, t))
		}
	})
	c.Each("huge", c.N(40, 3000), func(k *Case) { deepAudit(k, k.R.Range(5, 20), 6) })
	c.Each("start", c.N(6, 20), func(k *Case) {
		// An auditor doesn't start with an unusable state or configuration.
		l := newAuditedLog(k)
		for _, raw := range [][]byte{{}, {1}, k.R.Bytes(40), bytes.Repeat([]byte{0xff}, 300)} {
			_, err := auditor.NewAuditor(l.pub, l.key, &auditorStore{state: raw})
			k.Assert(err != nil, "auditor starts from an unusable state")
		}
		_, err := auditor.NewAuditor(l.pub, genSigningKey(k.R, l.cs), &auditorStore{})
		k.Assert(err != nil, "auditor starts with another key than the configured one")
		_, err = newAuditor(k, l.pub, l.key, &auditorStore{}).Commit()
		k.Assert(err != nil, "auditor signs an empty log")
		k.Eval("start")
	})
}
