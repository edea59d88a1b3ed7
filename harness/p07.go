//go:build P07

package main

import (
	"bytes"
	"errors"
	"strings"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/prefix"
)

func init() {
	register(&Check{
		ID: "P07", Level: "exploration", Min: 20000,
		Rule: "random histories of batch additions, removals and replacements (VRF outputs sharing prefixes of up to 255 bits, trees of up to several hundred entries split over several tiles, empty batches, rejected batches, failing database writes); after every mutation the root is compared with the one defined by the set, and lookups of present and absent entries are made in every version, together and alone; an evaluation is one mutation or one batch of lookups, keyed by version and sizes",
		Run:  runP07,
	})
}

func (m *pModel) everything() {
	// All versions, all keys ever used, in one batch and in separate ones.
	var all []prefix.PrefixSearch
	for v := uint64(1); v <= m.ver(); v++ {
		seen := make(map[string]bool)
		var vrfs [][]byte
		for _, x := range m.pool {
			if !seen[string(x)] && (len(m.pool) < 150 || m.k.R.P(0.3)) {
				seen[string(x)] = true
				vrfs = append(vrfs, x)
			}
		}
		all = append(all, prefix.PrefixSearch{Version: v, VrfOutputs: vrfs})
	}
	m.search(all)
	for _, s := range all {
		m.search([]prefix.PrefixSearch{s})
	}
}

// failingStore refuses writes from some point on.
type failingStore struct {
	db.PrefixStore
	left int
}

func (f *failingStore) Put(key string, value []byte) error {
	if f.left == 0 {
		return errors.New("injected failure")
	}
	f.left--
	return f.PrefixStore.Put(key, value)
}

func (m *pModel) rejected() {
	k, r := m.k, m.k.R
	ver := m.ver()
	add, remove := m.step(6)
	keys := m.keys(ver)
	isRemoved := func(v []byte) bool {
		for _, x := range remove {
			if bytes.Equal(x, v) {
				return true
			}
		}
		return false
	}
	var store db.PrefixStore = m.store
	what := ""
	switch r.Intn(10) {
	case 0:
		if len(keys) == 0 {
			return
		}
		v := keys[r.Intn(len(keys))]
		if isRemoved(v) {
			return
		}
		add = append(add, prefix.Entry{VrfOutput: v, Commitment: r.Bytes(32)})
		what = "entry that is present"
	case 1:
		remove = append(remove, r.Bytes(32))
		what = "removal of an absent entry"
	case 2:
		if len(add) == 0 {
			return
		}
		add = append(add, prefix.Entry{VrfOutput: add[0].VrfOutput, Commitment: r.Bytes(32)})
		what = "entry added twice"
	case 3:
		if len(remove) == 0 {
			return
		}
		remove = append(remove, remove[0])
		what = "entry removed twice"
	case 4:
		add = append(add, prefix.Entry{VrfOutput: r.Bytes(pick(r, 0, 31, 33)), Commitment: r.Bytes(32)})
		what = "VRF output of the wrong length"
	case 5:
		add = append(add, prefix.Entry{VrfOutput: r.Bytes(32), Commitment: r.Bytes(pick(r, 0, 31, 33))})
		what = "commitment of the wrong length"
	case 6:
		remove = append(remove, r.Bytes(pick(r, 0, 31, 33)))
		what = "removed VRF output of the wrong length"
	case 7:
		v := r.Bytes(32)
		add = append(add, prefix.Entry{VrfOutput: v, Commitment: r.Bytes(32)})
		remove = append(remove, v)
		what = "absent entry replaced"
	case 8:
		store = &failingStore{store, 0}
		what = "failing write"
	case 9:
		_, _, _, err := prefix.NewTree(m.cs, m.store).Mutate(ver+uint64(r.Range(1, 3)), add, nil)
		k.Assert(err != nil, "mutation of a version that does not exist succeeded")
		return
	}
	r.Shuffle(len(add), func(i, j int) { add[i], add[j] = add[j], add[i] })
	r.Shuffle(len(remove), func(i, j int) { remove[i], remove[j] = remove[j], remove[i] })
	before := make(map[string][]byte)
	for a, b := range m.store.Data {
		before[a] = b
	}
	_, _, _, err := prefix.NewTree(m.cs, store).Mutate(ver, add, remove)
	k.Assert(err != nil, "mutation with %s succeeded", what)
	if what != "failing write" {
		k.Assert(len(before) == len(m.store.Data), "refused mutation wrote to the database")
	}
	for a, b := range before {
		k.Assert(bytes.Equal(m.store.Data[a], b), "refused mutation changed the database")
	}
	k.Eval("rejected %s", what)
}

func runP07(c *Ctx) {
	c.Each("history", c.N(400, 20000), func(k *Case) {
		m := newPModel(k)
		steps := pick(k.R, 4, 10, 25)
		size := pick(k.R, 1, 3, 10, 40)
		for i := 0; i < steps; i++ {
			if k.R.P(0.3) {
				m.rejected()
			}
			m.mutate(m.step(size))
			m.search(m.randomSearches(k.R.Range(1, 4), 12))
		}
		m.everything()
		if k.Idx < 3 {
			k.Sample("%d versions, %d entries at the end, %d VRF outputs used", m.ver(), len(m.sets[m.ver()]), len(m.pool))
		}
	})
	c.Each("large", c.N(8, 200), func(k *Case) {
		m := newPModel(k)
		for i := 0; i < 12; i++ {
			m.mutate(m.step(pick(k.R, 5, 400)))
			m.search(m.randomSearches(3, 200))
		}
		m.everything()
		k.Count("largest tile", 0)
		for _, raw := range m.store.Data {
			if len(raw) > k.Counter("largest tile") {
				k.Count("largest tile", len(raw)-k.Counter("largest tile"))
			}
		}
	})
	c.Each("deep", c.N(40, 1000), func(k *Case) {
		// Pairs and chains of entries that differ only in late bits.
		m := newPModel(k)
		base := k.R.Bytes(32)
		m.pool = append(m.pool, base)
		var add []prefix.Entry
		add = append(add, prefix.Entry{VrfOutput: base, Commitment: k.R.Bytes(32)})
		for d := 255; d >= 0; d -= k.R.Range(1, 60) {
			v := bytes.Clone(base)
			v[d/8] ^= 1 << (7 - uint(d%8))
			m.pool = append(m.pool, v)
			add = append(add, prefix.Entry{VrfOutput: v, Commitment: k.R.Bytes(32)})
			if k.R.P(0.3) {
				m.mutate(add, nil)
				add = nil
			}
		}
		m.mutate(add, nil)
		m.everything()
		for i := 0; i < 6; i++ {
			m.mutate(m.step(3))
			m.search(m.randomSearches(3, 12))
		}
		m.everything()
	})
	c.Each("canonical", c.N(60, 3000), func(k *Case) {
		// The same set reached along different ways has the same root.
		a := newPModel(k)
		for i := 0; i < 8; i++ {
			a.mutate(a.step(8))
		}
		b := newPModel(k)
		b.pool = a.pool
		target := a.sets[a.ver()]
		// Everything that was ever there, plus the final set.
		for i := 0; i < 3; i++ {
			b.mutate(b.step(10))
		}
		var add []prefix.Entry
		cur := b.sets[b.ver()]
		var remove [][]byte
		for _, v := range b.keys(b.ver()) {
			if c, ok := target[string(v)]; !ok || !bytes.Equal(c, cur[string(v)]) {
				remove = append(remove, v)
			}
		}
		for _, v := range a.keys(a.ver()) {
			if c, ok := cur[string(v)]; !ok || !bytes.Equal(c, target[string(v)]) {
				add = append(add, prefix.Entry{VrfOutput: v, Commitment: target[string(v)]})
			}
		}
		b.mutate(add, remove)
		k.Assert(bytes.Equal(a.roots[a.ver()], b.roots[b.ver()]), "the same set has two roots")
	})
	c.Each("exhaustive", c.N(64, 512), func(k *Case) {
		// Every set of three-bit keys to every other: sets of 8 keys, one
		// starting set per case, several thousand targets.
		start := k.Idx * 255 / c.N(63, 511)
		base := k.R.Bytes(32)
		off := pick(k.R, 0, 0, 1, 7, 100, 253)
		key := func(i int) []byte {
			v := bytes.Clone(base)
			for b := 0; b < 3; b++ {
				p := off + b
				v[p/8] &^= 1 << (7 - uint(p%8))
				v[p/8] |= byte(i>>(2-b)&1) << (7 - uint(p%8))
			}
			return v
		}
		m := newPModel(k)
		var add []prefix.Entry
		for i := 0; i < 8; i++ {
			m.pool = append(m.pool, key(i))
			if start>>i&1 == 1 {
				add = append(add, prefix.Entry{VrfOutput: key(i), Commitment: k.R.Bytes(32)})
			}
		}
		m.mutate(add, nil)
		for end := 0; end < 256; end++ {
			// Branch off: keep only version 1.
			b := newPModel(k)
			b.store, b.sets, b.roots, b.pool = m.store, m.sets[:2:2], m.roots[:2:2], m.pool
			for key := range b.store.Data {
				if !strings.HasPrefix(key, "1:") {
					delete(b.store.Data, key)
				}
			}
			var add []prefix.Entry
			var remove [][]byte
			for i := 0; i < 8; i++ {
				s, e := start>>i&1, end>>i&1
				if s == 0 && e == 1 {
					add = append(add, prefix.Entry{VrfOutput: key(i), Commitment: k.R.Bytes(32)})
				} else if s == 1 && e == 0 {
					remove = append(remove, key(i))
				} else if s == 1 && k.R.P(0.1) {
					remove = append(remove, key(i))
					add = append(add, prefix.Entry{VrfOutput: key(i), Commitment: k.R.Bytes(32)})
				}
			}
			b.mutate(add, remove)
			b.search([]prefix.PrefixSearch{{Version: 1, VrfOutputs: m.pool[:8:8]}, {Version: 2, VrfOutputs: m.pool[:8:8]}, {Version: 2, VrfOutputs: b.someVrfs(2, 3)}})
			b.pool = m.pool[:8:8]
		}
	})
	c.Each("invalid", c.N(10, 50), func(k *Case) {
		m := newPModel(k)
		m.mutate(m.step(5))
		m.mutate(m.step(5))
		t := prefix.NewTree(m.cs, m.store)
		for i, s := range [][]prefix.PrefixSearch{
			{{Version: 0, VrfOutputs: [][]byte{k.R.Bytes(32)}}},
			{{Version: 3, VrfOutputs: [][]byte{k.R.Bytes(32)}}},
			{{Version: 1, VrfOutputs: [][]byte{k.R.Bytes(31)}}},
			{{Version: 1, VrfOutputs: [][]byte{k.R.Bytes(32), nil}}},
			{{Version: ^uint64(0), VrfOutputs: [][]byte{k.R.Bytes(32)}}},
		} {
			_, err := t.Search(s)
			k.Assert(err != nil, "invalid search %d succeeded", i)
			k.Eval("invalid %d", i)
		}
	})
}
