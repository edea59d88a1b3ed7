//go:build P34

package main

import (
	"bytes"
	"fmt"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
)

func init() {
	register(&Check{
		ID: "P34", Level: "exploration", Min: 20000,
		Rule: "random sequences of puts, deletes, lookups, commits, clones and restarts over both backends, with keys of every kind that are similar to each other (labels that are prefixes of each other, look like encodings, contain separators, or are empty; versions and positions whose digits run into each other), compared with a map; buffers that were given to or come from the backend are overwritten afterwards; an evaluation is one lookup, keyed by backend, kind and what it found",
		Run:  runP34,
	})
}

func runP34(c *Ctx) {
	c.Each("leveldb", c.N(48, 1000), func(k *Case) { p34Store(k, true) })
	c.Each("memory", c.N(48, 1000), func(k *Case) { p34Store(k, false) })
	c.Each("small", c.N(60, 1000), p34Small)
}

// p34Keys are labels that a careless encoding would mix up.
func p34Keys(r *Rand) [][]byte {
	base := [][]byte{{}, {0}, {0, 0}, []byte("a"), []byte("a\x00"), []byte("A"), []byte("61"), []byte("a:1"), []byte("a:"), []byte(":1"), []byte("a1"),
		{0x0a}, {0xa0}, {0x61, 0x10}, {0x61, 0x01}, {0x6, 0x1}, {0xff}, {0xff, 0xff}, []byte("tree-head"), []byte("auditor-tree-head"), []byte("\xc3\x28"), []byte("\xef\xbf\xbd"),
		bytes.Repeat([]byte{'a'}, 255), append(bytes.Repeat([]byte{'a'}, 254), 'b'), bytes.Repeat([]byte{0}, 255)}
	out := append([][]byte(nil), base...)
	for i := 0; i < 4; i++ {
		out = append(out, r.Bytes(r.Range(1, 40)))
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:r.Range(4, len(out))]
}

func p34Vers(r *Rand) []uint32 {
	all := []uint32{0, 1, 2, 9, 10, 11, 15, 16, 17, 100, 101, 255, 256, 257, 1 << 16, 1<<16 + 1, 1 << 31, 1<<32 - 1, 1<<32 - 2}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:r.Range(2, len(all))]
}

func p34Positions(r *Rand) []uint64 {
	all := []uint64{0, 1, 2, 10, 11, 12, 100, 255, 256, 1 << 16, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1 << 53, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:r.Range(2, len(all))]
}

func p34Store(k *Case, ldb bool) {
	r := k.R
	labels, vers, pos := p34Keys(r), p34Vers(r), p34Positions(r)
	if r.P(0.6) {
		// Pairs whose digits run into each other without a separator.
		b := r.Bytes(1)[0] | 0x10
		l := labels[0]
		labels = append(labels, append(bytes.Clone(l), b))
		vers = append(vers, uint32(b)<<4, 0, uint32(b)<<8|0x7, 7, uint32(b)<<8|0x23, 0x23)
	}
	var pkeys []string
	for _, l := range p34Keys(r) {
		pkeys = append(pkeys, string(l))
	}
	var store db.TransparencyStore
	dir := ""
	name := "memory"
	done := func() {}
	if ldb {
		name = "leveldb"
		dir = scratchDir()
		defer removeDir(dir)
		var err error
		store, done, err = openLDB(dir)
		check(err)
	} else {
		store = memory.NewTransparencyStore()
	}
	defer func() { done() }()
	now, committed := make(map[string][]byte), make(map[string][]byte)
	var head, aud, cHead, cAud []byte
	value := func() []byte {
		if r.P(0.05) {
			return []byte{}
		}
		return r.Bytes(r.Range(1, 40))
	}
	pick1 := func() (kind string, key string, put func([]byte) error, del func() error) {
		switch r.Intn(5) {
		case 0:
			l := labels[r.Intn(len(labels))]
			return "index", fmt.Sprintf("i|%x", l), func(v []byte) error { return store.PutIndex(bytes.Clone(l), v) }, func() error { return store.DeleteIndex(l) }
		case 1:
			l, ver := labels[r.Intn(len(labels))], vers[r.Intn(len(vers))]
			return "version", fmt.Sprintf("v|%x|%d", l, ver), func(v []byte) error { return store.PutVersion(bytes.Clone(l), ver, v) }, func() error { return store.DeleteVersion(l, ver) }
		case 2:
			p := pos[r.Intn(len(pos))]
			return "entry", fmt.Sprintf("t|%d", p), func(v []byte) error { return store.Put(p, v) }, func() error { return store.Delete(p) }
		case 3:
			p := pos[r.Intn(len(pos))]
			return "log", fmt.Sprintf("l|%d", p), func(v []byte) error { return store.LogStore().Put(p, v) }, func() error { return store.LogStore().Delete(p) }
		}
		p := pkeys[r.Intn(len(pkeys))]
		return "prefix", "p|" + p, func(v []byte) error { return store.PrefixStore().Put(p, v) }, func() error { return store.PrefixStore().Delete(p) }
	}
	// compare looks up everything through one handle.
	compare := func(s db.TransparencyStore, want map[string][]byte, wantHead, wantAud []byte, when string) {
		same := func(kind, key string, got []byte, found bool) {
			w, ok := want[key]
			k.Assert(ok == found && bytes.Equal(w, got), "%s, %s: %s %q is %x (found: %v), should be %x (%v)", name, when, kind, key, got, found, w, ok)
			for i := range got {
				got[i] ^= 0x55
			}
			k.Eval("%s %s %s found %v", name, when, kind, found)
		}
		h, a, err := s.GetTreeHead()
		k.Assert(err == nil && bytes.Equal(h, wantHead) && (h == nil) == (wantHead == nil), "%s, %s: tree head is %x (%v), should be %x", name, when, h, err, wantHead)
		if wantHead != nil {
			k.Assert(bytes.Equal(a, wantAud) && (a == nil) == (wantAud == nil), "%s, %s: auditor tree head is %x, should be %x", name, when, a, wantAud)
		}
		for i := range h {
			h[i] ^= 0x55
		}
		for i := range a {
			a[i] ^= 0x55
		}
		req := append([][]byte(nil), labels...)
		if r.P(0.3) && len(req) > 1 {
			req[0] = req[1] // twice
		}
		idx, err := s.BatchGetIndex(req)
		k.Assert(err == nil && len(idx) == len(req), "%s, %s: %d indices for %d labels (%v)", name, when, len(idx), len(req), err)
		for i, l := range req {
			same("index", fmt.Sprintf("i|%x", l), idx[i], idx[i] != nil)
		}
		for _, l := range labels {
			for _, ver := range vers {
				raw, err := s.GetVersion(l, ver)
				k.Assert(err == nil, "%s, %s: version can't be read: %v", name, when, err)
				same("version", fmt.Sprintf("v|%x|%d", l, ver), raw, raw != nil)
			}
		}
		for i, get := range []func([]uint64) (map[uint64][]byte, error){s.BatchGet, s.LogStore().BatchGet} {
			req := append([]uint64(nil), pos...)
			r.Shuffle(len(req), func(i, j int) { req[i], req[j] = req[j], req[i] })
			req = req[:r.Intn(len(req)+1)]
			out, err := get(req)
			k.Assert(err == nil, "%s, %s: read failed: %v", name, when, err)
			n := 0
			for _, p := range req {
				v, ok := out[p]
				if ok {
					n++
				}
				same([]string{"entry", "log"}[i], fmt.Sprintf("%s|%d", []string{"t", "l"}[i], p), v, ok)
			}
			k.Assert(n == len(out), "%s, %s: more keys returned than requested", name, when)
		}
		out, err := s.PrefixStore().BatchGet(pkeys)
		k.Assert(err == nil, "%s, %s: read failed: %v", name, when, err)
		for _, p := range pkeys {
			v, ok := out[p]
			same("prefix", "p|"+p, v, ok)
		}
		k.Assert(len(out) <= len(pkeys), "%s, %s: more keys returned than requested", name, when)
	}
	snapshot := func() {
		committed = make(map[string][]byte)
		for key, v := range now {
			committed[key] = v
		}
		cHead, cAud = head, aud
	}
	for step := r.Range(5, 40); step > 0; step-- {
		for i := r.Range(1, 12); i > 0; i-- {
			switch {
			case r.P(0.1):
				head = value()
				if r.P(0.5) {
					aud = value()
					check(store.PutAuditorTreeHead(bytes.Clone(aud)))
				}
				buf := bytes.Clone(head)
				check(store.PutTreeHead(buf))
				for i := range buf {
					buf[i] ^= 0x55
				}
			default:
				kind, key, put, del := pick1()
				if r.P(0.3) {
					err := del()
					k.Assert(err == nil, "%s: deleting %s failed: %v", name, kind, err)
					delete(now, key)
					break
				}
				if r.P(0.03) {
					err := put(nil)
					k.Assert(err != nil, "%s: %s: nil, which means deletion, was stored", name, kind)
					break
				}
				v := value()
				buf := bytes.Clone(v)
				err := put(buf)
				k.Assert(err == nil, "%s: storing %s failed: %v", name, kind, err)
				for i := range buf {
					buf[i] ^= 0x55
				}
				now[key] = v
			}
		}
		compare(store, now, head, aud, "own changes")
		if ldb {
			clone := store.Clone()
			compare(clone, committed, cHead, cAud, "clone before commit")
			switch r.Intn(4) {
			case 0, 1:
				err := store.Commit()
				k.Assert(err == nil, "commit failed: %v", err)
				snapshot()
				compare(store, committed, cHead, cAud, "committed")
				compare(clone, committed, cHead, cAud, "clone after commit")
				compare(store.Clone(), committed, cHead, cAud, "clone after commit")
			case 2:
				if r.P(0.5) {
					err := store.Commit()
					k.Assert(err == nil, "commit failed: %v", err)
					snapshot()
				}
				done()
				var err error
				store, done, err = openLDB(dir)
				k.Assert(err == nil, "database can't be opened again: %v", err)
				now, head, aud = make(map[string][]byte), cHead, cAud
				for key, v := range committed {
					now[key] = v
				}
				compare(store, committed, cHead, cAud, "reopened")
			}
		} else {
			err := store.Commit()
			k.Assert(err == nil, "commit failed: %v", err)
			compare(store.Clone(), now, head, aud, "clone")
		}
	}
}

// p34Small checks the stores of auditors and operators.
func p34Small(k *Case) {
	r := k.R
	as := memory.NewAuditorStore()
	var state []byte
	for i := 0; i < 10; i++ {
		got, err := as.GetState()
		k.Assert(err == nil && bytes.Equal(got, state) && (got == nil) == (state == nil), "auditor's state is %x (%v), should be %x", got, err, state)
		for i := range got {
			got[i] ^= 0x55
		}
		k.Eval("auditor %v", got == nil)
		if r.P(0.6) {
			state = r.Bytes(r.Range(1, 30))
			buf := bytes.Clone(state)
			check(as.PutState(buf))
			for i := range buf {
				buf[i] ^= 0x55
			}
		}
	}
	ms := memory.NewManagedLogStore()
	want := make(map[string]int)
	labels := p34Keys(r)
	for i := 0; i < 60; i++ {
		l := labels[r.Intn(len(labels))]
		n := r.Intn(4)
		prev, ok := want[string(l)]
		if !ok {
			prev = -1
		}
		got, err := ms.IncrementGreatestVersion(l, n)
		k.Assert(err == nil && got == prev, "greatest version of %q was %d (%v), should be %d", l, got, err, prev)
		want[string(l)] = prev + n
		k.Eval("managed %v %d", ok, n)
	}
}
