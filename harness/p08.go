//go:build P08

package main

import (
	"bytes"
	"fmt"

	"github.com/Bren2010/katie/tree/prefix"
)

func init() {
	register(&Check{
		ID: "P08", Level: "exploration", Min: 50000,
		Rule: "for trees of random and clustered entries: honest proofs of every kind of batch verify; proofs altered at the wire level, crafted from the true tree with any combination of result kinds, depths, leaves and copath values, and decoded from random bytes, with true and false commitments, are accepted only if everything they state is true; an evaluation is one verification, keyed by the shape of the proof and the verdict",
		Run:  runP08,
	})
}

// truth says whether everything that an accepted proof states holds in set.
func (m *pModel) truth(ver uint64, entries []prefix.Entry, proof *prefix.PrefixProof) string {
	set := m.sets[ver]
	for i, e := range entries {
		if i >= len(proof.Results) {
			return "accepted with too few results"
		}
		com, ok := set[string(e.VrfOutput)]
		in := proof.Results[i].Inclusion()
		if in != ok {
			return fmt.Sprintf("lookup %d: entry shown as present=%v, but present=%v", i, in, ok)
		} else if in && !bytes.Equal(com, e.Commitment) {
			return fmt.Sprintf("lookup %d: shown with commitment %x, but it is %x", i, e.Commitment, com)
		}
	}
	return ""
}

func (m *pModel) verify(ver uint64, entries []prefix.Entry, proof *prefix.PrefixProof, what string) {
	k := m.k
	err := prefix.Verify(m.cs, entries, proof, m.roots[ver])
	if err == nil {
		if msg := m.truth(ver, entries, proof); msg != "" {
			for _, e := range entries {
				k.Logf("entry %x %x", e.VrfOutput, e.Commitment)
			}
			k.Logf("proof %+v", proof)
			for v, c := range m.sets[ver] {
				k.Logf("present %x %x", v, c)
			}
			k.Fail("false proof (%s) is accepted: %s", what, msg)
		}
		k.Count("accepted", 1)
	} else {
		k.Count("rejected", 1)
	}
	k.Eval("%s n%d e%d %d %v", what, len(entries), len(proof.Elements), len(m.sets[ver]), err)
}

func (m *pModel) statement(ver uint64, vrfs [][]byte) []prefix.Entry {
	r := m.k.R
	entries := m.entries(ver, vrfs)
	keys := m.keys(ver)
	for i := range entries {
		switch c := r.Intn(6); {
		case c == 0:
			entries[i].Commitment = r.Bytes(32)
		case c == 1:
			entries[i].Commitment = nil
		case c == 2 && len(keys) > 0:
			entries[i].Commitment = m.sets[ver][string(keys[r.Intn(len(keys))])]
		case c == 3 && entries[i].Commitment == nil:
			entries[i].Commitment = r.Bytes(32)
		}
	}
	return entries
}

func (m *pModel) smallTree(steps, size int) {
	for i := 0; i < steps; i++ {
		add, remove := m.step(size)
		for len(m.sets[m.ver()]) == 0 && len(add) == 0 {
			add, remove = m.step(size)
		}
		m.mutate(add, remove)
	}
}

func runP08(c *Ctx) {
	c.Each("honest", c.N(150, 6000), func(k *Case) {
		m := newPModel(k)
		m.smallTree(4, pick(k.R, 2, 8, 30))
		for i := 0; i < 30; i++ {
			for _, s := range m.randomSearches(2, 8) {
				res := m.search([]prefix.PrefixSearch{s})[0]
				if len(s.VrfOutputs) == 0 {
					continue
				}
				// True proof, other statements, other roots.
				m.verify(s.Version, m.statement(s.Version, s.VrfOutputs), &res.Proof, "statement")
				other := uint64(k.R.Range(1, int(m.ver())))
				m.verify(other, m.entries(s.Version, s.VrfOutputs), &res.Proof, "version")
				m.verify(other, m.entries(other, s.VrfOutputs), &res.Proof, "version")
				// Lookup replaced by another.
				e := m.statement(s.Version, s.VrfOutputs)
				e[k.R.Intn(len(e))].VrfOutput = m.someVrfs(s.Version, 1)[0]
				m.verify(s.Version, e, &res.Proof, "lookup")
				// Altered.
				for j := 0; j < 12; j++ {
					wp := parseProof(&res.Proof)
					if wp == nil {
						break
					}
					wp = wp.clone()
					d := ""
					for n := pick(k.R, 1, 1, 2, 3); n > 0; n-- {
						d += wp.mutate(k.R)
					}
					dec, err := wp.decode(m.cs)
					if err != nil {
						continue
					}
					m.verify(s.Version, m.entries(s.Version, s.VrfOutputs), dec, "altered")
					m.verify(s.Version, m.statement(s.Version, s.VrfOutputs), dec, "altered")
				}
			}
		}
	})
	c.Each("crafted", c.N(100, 6000), func(k *Case) {
		m := newPModel(k)
		m.smallTree(pick(k.R, 1, 3), pick(k.R, 1, 2, 4, 8))
		for i := 0; i < 120; i++ {
			ver := uint64(k.R.Range(1, int(m.ver())))
			vrfs := m.someVrfs(ver, k.R.Range(1, 4))
			// Lookups that end at the same leaf.
			if keys := m.keys(ver); len(keys) > 0 && k.R.P(0.5) {
				v := keys[k.R.Intn(len(keys))]
				dup := false
				for _, x := range vrfs {
					dup = dup || bytes.Equal(x, v)
				}
				if !dup {
					vrfs = append(vrfs, v)
				}
				w := bytes.Clone(v)
				w[k.R.Range(4, 31)] ^= 1 << k.R.Intn(8)
				if _, ok := m.sets[ver][string(w)]; !ok {
					vrfs = append(vrfs, w)
				}
				k.R.Shuffle(len(vrfs), func(i, j int) { vrfs[i], vrfs[j] = vrfs[j], vrfs[i] })
			}
			seen := map[string]bool{}
			uniq := vrfs[:0:0]
			for _, v := range vrfs {
				if !seen[string(v)] {
					seen[string(v)] = true
					uniq = append(uniq, v)
				}
			}
			vrfs = uniq
			cands := make([][]wireResult, len(vrfs))
			for i, v := range vrfs {
				cands[i] = m.candidates(ver, v)
			}
			for j := 0; j < 40; j++ {
				results := make([]wireResult, len(vrfs))
				for i := range results {
					results[i] = pick(k.R, cands[i]...)
				}
				entries := m.statement(ver, vrfs)
				wp := m.craft(ver, entries, results)
				if k.R.P(0.1) {
					wp = wp.clone()
					wp.mutate(k.R)
				}
				dec, err := wp.decode(m.cs)
				if err != nil {
					continue
				}
				m.verify(ver, entries, dec, "crafted")
				m.beforeAfter(ver, entries, dec)
			}
		}
	})
	c.Each("exhaustive", c.N(32, 300), func(k *Case) {
		// All combinations of candidates for one and two lookups in small trees.
		m := newPModel(k)
		m.smallTree(1, 3)
		vrfs := append(m.keys(1), m.someVrfs(1, 3)...)
		for i := range vrfs {
			for j := i; j < len(vrfs); j++ {
				look := [][]byte{vrfs[i]}
				if i != j {
					look = append(look, vrfs[j])
					if bytes.Equal(vrfs[i], vrfs[j]) {
						continue
					}
				}
				a := m.candidates(1, look[0])
				b := []wireResult{{}}
				if len(look) == 2 {
					b = m.candidates(1, look[1])
				}
				for _, x := range a {
					for _, y := range b {
						results := []wireResult{x, y}[:len(look)]
						entries := m.statement(1, look)
						dec, err := m.craft(1, entries, results).decode(m.cs)
						check(err)
						m.verify(1, entries, dec, "exhaustive")
						if len(look) == 2 {
							m.beforeAfter(1, entries, dec)
						}
					}
				}
			}
		}
	})
	c.Each("random", c.N(64, 2000), func(k *Case) {
		m := newPModel(k)
		m.smallTree(2, 4)
		for i := 0; i < 300; i++ {
			wp := &wireProof{}
			n := k.R.Intn(5)
			for j := 0; j < n; j++ {
				res := wireResult{kind: byte(k.R.Range(1, 3)), depth: byte(pick(k.R, 0, 1, 2, 3, 254, 255, k.R.Intn(256)))}
				if res.kind == 2 {
					res.vrf, res.com = k.R.Bytes(32), k.R.Bytes(32)
				}
				wp.results = append(wp.results, res)
			}
			for j := k.R.Intn(6); j > 0; j-- {
				wp.elements = append(wp.elements, k.R.Bytes(32))
			}
			raw := wp.encode()
			if k.R.P(0.2) {
				raw = k.R.Bytes(k.R.Intn(200))
			}
			proof, err := prefix.NewPrefixProof(m.cs, bytes.NewBuffer(raw))
			if err != nil {
				k.Eval("undecodable")
				continue
			}
			vrfs := m.someVrfs(m.ver(), len(proof.Results))
			entries := m.statement(m.ver(), vrfs)
			if k.R.P(0.1) {
				entries = append(entries, entries...)
			}
			if k.R.P(0.1) && len(entries) > 0 {
				entries[0].VrfOutput = k.R.Bytes(k.R.Intn(40))
			}
			m.verify(m.ver(), entries, proof, "random")
			m.beforeAfter(m.ver(), entries, proof)
		}
	})
}

// beforeAfter uses the proof as that of an update: with some of the lookups
// being additions and the others removals.
func (m *pModel) beforeAfter(ver uint64, entries []prefix.Entry, proof *prefix.PrefixProof) {
	k := m.k
	n := k.R.Intn(len(entries) + 1)
	add, remove := append([]prefix.Entry(nil), entries[:n]...), append([]prefix.Entry(nil), entries[n:]...)
	for i := range add {
		if add[i].Commitment == nil {
			add[i].Commitment = k.R.Bytes(32)
		}
	}
	for i := range remove {
		if remove[i].Commitment == nil {
			remove[i].Commitment = k.R.Bytes(32)
		}
	}
	if n < len(entries) && n > 0 && k.R.P(0.1) && len(entries) == len(proof.Results) {
		add[0].VrfOutput = remove[0].VrfOutput // replaced
	}
	// The auditor checks first that the entries to add are shown as absent and
	// those to remove as present.
	if len(proof.Results) != len(entries) {
		_, _, err := prefix.EvaluateBeforeAfter(m.cs, add, remove, proof)
		k.Assert(err != nil, "proof of an update with a wrong number of results is accepted")
		return
	}
	for i := range remove {
		if !proof.Results[n+i].Inclusion() {
			return
		}
	}
	for i, e := range add {
		replaced := false
		for _, x := range remove {
			replaced = replaced || bytes.Equal(x.VrfOutput, e.VrfOutput)
		}
		if proof.Results[i].Inclusion() && !replaced {
			return
		}
	}
	before, after, err := prefix.EvaluateBeforeAfter(m.cs, add, remove, proof)
	if err != nil || !bytes.Equal(before, m.roots[ver]) {
		return
	}
	set := m.sets[ver]
	gone := make(map[string]bool)
	for _, e := range remove {
		gone[string(e.VrfOutput)] = true
		com, ok := set[string(e.VrfOutput)]
		k.Assert(ok && bytes.Equal(com, e.Commitment), "proof of an update shows an entry to remove that isn't there with that commitment")
	}
	for _, e := range add {
		_, ok := set[string(e.VrfOutput)]
		if gone[string(e.VrfOutput)] {
			continue
		}
		k.Assert(!ok, "proof of an update shows an entry as absent that is present")
	}
	// Without removals the root afterwards is known in any case.
	if len(remove) == 0 {
		want := refPrefixRoot(entriesOf(applyStep(set, add, nil)))
		k.Assert(bytes.Equal(after, want), "true proof of an update evaluates to a wrong root for afterwards")
		k.Count("updates evaluated", 1)
	}
	k.Eval("update +%d -%d", len(add), len(remove))
}
