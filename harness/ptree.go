package main

import (
	"bytes"
	"sort"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
)

// pModel is a prefix tree under test, together with the set of entries that
// each of its versions must hold.
type pModel struct {
	k     *Case
	cs    suites.CipherSuite
	store *memory.PrefixStore
	sets  []map[string][]byte // by version; version 0 is empty
	roots [][]byte
	pool  [][]byte // every VRF output ever used, and others like them
}

func newPModel(k *Case) *pModel {
	return &pModel{
		k: k, cs: suiteByID(1 + k.Idx%2), store: memory.NewPrefixStore(),
		sets: []map[string][]byte{{}}, roots: [][]byte{make([]byte, 32)},
	}
}

func (m *pModel) ver() uint64 { return uint64(len(m.sets) - 1) }

// vrf makes a VRF output: random, or sharing a prefix with another.
func (m *pModel) vrf() []byte {
	r := m.k.R
	out := r.Bytes(32)
	if len(m.pool) > 0 && r.P(0.6) {
		base := m.pool[r.Intn(len(m.pool))]
		d := pick(r, r.Intn(256), r.Intn(12), 255, 254, 7, 8, 31, 32, 64)
		for i := 0; i < 256; i++ {
			bit := bitAt(base, i)
			if i == d {
				bit ^= 1
			} else if i > d {
				break
			}
			out[i/8] = out[i/8]&^(1<<(7-uint(i%8))) | byte(bit)<<(7-uint(i%8))
		}
	}
	m.pool = append(m.pool, out)
	return out
}

func (m *pModel) keys(ver uint64) [][]byte {
	var out [][]byte
	for v := range m.sets[ver] {
		out = append(out, []byte(v))
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
	return out
}

func entriesOf(set map[string][]byte) []pEntry {
	var out []pEntry
	for v, c := range set {
		out = append(out, pEntry{[]byte(v), c})
	}
	return out
}

// step is a legitimate mutation.
func (m *pModel) step(maxAdd int) (add []prefix.Entry, remove [][]byte) {
	r := m.k.R
	cur := m.sets[m.ver()]
	n := r.Intn(maxAdd + 1)
	if r.P(0.15) {
		n = 0
	}
	seen := make(map[string]bool)
	for i := 0; i < n; i++ {
		v := m.vrf()
		if r.P(0.2) {
			v = m.pool[r.Intn(len(m.pool))] // possibly one that was removed
		}
		if _, ok := cur[string(v)]; !ok && !seen[string(v)] {
			seen[string(v)] = true
			add = append(add, prefix.Entry{VrfOutput: v, Commitment: r.Bytes(32)})
		}
	}
	keys := m.keys(m.ver())
	rate := pick(r, 0, 0, 0.1, 0.5, 1)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, v := range keys {
		if r.P(rate) {
			remove = append(remove, v)
			if r.P(0.2) {
				add = append(add, prefix.Entry{VrfOutput: v, Commitment: r.Bytes(32)})
			}
		}
	}
	r.Shuffle(len(add), func(i, j int) { add[i], add[j] = add[j], add[i] })
	return
}

func applyStep(set map[string][]byte, add []prefix.Entry, remove [][]byte) map[string][]byte {
	out := make(map[string][]byte, len(set))
	for v, c := range set {
		out[v] = c
	}
	for _, v := range remove {
		delete(out, string(v))
	}
	for _, e := range add {
		out[string(e.VrfOutput)] = e.Commitment
	}
	return out
}

func cloneStep(add []prefix.Entry, remove [][]byte) ([]prefix.Entry, [][]byte) {
	var a []prefix.Entry
	for _, e := range add {
		a = append(a, prefix.Entry{VrfOutput: bytes.Clone(e.VrfOutput), Commitment: bytes.Clone(e.Commitment)})
	}
	var b [][]byte
	for _, v := range remove {
		b = append(b, bytes.Clone(v))
	}
	return a, b
}

// mutate applies a legitimate mutation and checks the outcome.
func (m *pModel) mutate(add []prefix.Entry, remove [][]byte) {
	k := m.k
	ver := m.ver()
	before := make(map[string][]byte, len(m.store.Data))
	for a, b := range m.store.Data {
		before[a] = b
	}
	a, b := cloneStep(add, remove)
	root, proof, coms, err := prefix.NewTree(m.cs, m.store).Mutate(ver, a, b)
	k.Assert(err == nil, "adding %d and removing %d entries at version %d failed: %v", len(add), len(remove), ver, err)
	for i := range a {
		k.Assert(bytes.Equal(a[i].VrfOutput, add[i].VrfOutput) && bytes.Equal(a[i].Commitment, add[i].Commitment), "the mutation altered the entries given to it")
	}
	k.Assert(equalAll(b, remove), "the mutation altered the list of entries to remove")
	next := applyStep(m.sets[ver], add, remove)
	want := refPrefixRoot(entriesOf(next))
	k.Logf("version %d: +%d -%d = %d entries", ver+1, len(add), len(remove), len(next))
	k.Assert(bytes.Equal(root, want), "root of version %d (%d entries; %d added, %d removed) is %x, not %x", ver+1, len(next), len(add), len(remove), root, want)
	for key, raw := range before {
		k.Assert(bytes.Equal(raw, m.store.Data[key]), "tile %s of an earlier version was rewritten by version %d", key, ver+1)
	}
	if ver > 0 {
		k.Assert(len(coms) == len(remove), "%d commitments for %d removed entries", len(coms), len(remove))
		for i, c := range coms {
			k.Assert(bytes.Equal(c, m.sets[ver][string(remove[i])]), "wrong commitment of removed entry %d", i)
		}
	}

	// The proof is of the state before.
	replaced := make(map[string]bool)
	for _, v := range remove {
		replaced[string(v)] = true
	}
	entries := make([]prefix.Entry, 0, len(add)+len(remove))
	wp := *proof
	wp.Results = nil
	k.Assert(len(proof.Results) == len(add)+len(remove), "the proof of the mutation has %d results instead of %d", len(proof.Results), len(add)+len(remove))
	for i, e := range add {
		in := proof.Results[i].Inclusion()
		k.Assert(in == replaced[string(e.VrfOutput)], "proof of mutation: wrong inclusion of added entry")
		if !in {
			entries = append(entries, prefix.Entry{VrfOutput: e.VrfOutput})
			wp.Results = append(wp.Results, proof.Results[i])
		}
	}
	for i, v := range remove {
		k.Assert(proof.Results[len(add)+i].Inclusion(), "proof of mutation: removed entry is not included")
		entries = append(entries, prefix.Entry{VrfOutput: v, Commitment: m.sets[ver][string(v)]})
		wp.Results = append(wp.Results, proof.Results[len(add)+i])
	}
	err = prefix.Verify(m.cs, entries, &wp, m.roots[ver])
	k.Assert(err == nil, "proof of mutation does not verify against the root before: %v", err)

	m.sets = append(m.sets, next)
	m.roots = append(m.roots, want)
	k.Eval("mutate %d %d %d", min(len(next), 100), min(len(add), 20), min(len(remove), 20))
}

// lookup describes what a version must answer.
func (m *pModel) entries(ver uint64, vrfs [][]byte) []prefix.Entry {
	out := make([]prefix.Entry, len(vrfs))
	for i, v := range vrfs {
		out[i] = prefix.Entry{VrfOutput: v, Commitment: m.sets[ver][string(v)]}
	}
	return out
}

// someVrfs picks distinct VRF outputs, present and absent.
func (m *pModel) someVrfs(ver uint64, n int) [][]byte {
	r := m.k.R
	keys := m.keys(ver)
	seen := make(map[string]bool)
	var out [][]byte
	for i := 0; i < n; i++ {
		var v []byte
		switch c := r.Intn(10); {
		case c < 5 && len(keys) > 0:
			v = keys[r.Intn(len(keys))]
		case c < 8 && len(m.pool) > 0:
			v = m.pool[r.Intn(len(m.pool))]
		default:
			v = m.vrf()
		}
		if !seen[string(v)] {
			seen[string(v)] = true
			out = append(out, v)
		}
	}
	return out
}

// search looks up the given outputs in several versions at once and checks
// every answer.
func (m *pModel) search(searches []prefix.PrefixSearch) []prefix.SearchResult {
	k := m.k
	in := make([]prefix.PrefixSearch, len(searches))
	for i, s := range searches {
		in[i].Version = s.Version
		for _, v := range s.VrfOutputs {
			in[i].VrfOutputs = append(in[i].VrfOutputs, bytes.Clone(v))
		}
	}
	res, err := prefix.NewTree(m.cs, m.store).Search(in)
	k.Assert(err == nil, "search failed: %v", err)
	k.Assert(len(res) == len(searches), "%d results for %d searches", len(res), len(searches))
	for i, s := range searches {
		m.checkResult(s, &res[i])
	}
	return res
}

func (m *pModel) checkResult(s prefix.PrefixSearch, res *prefix.SearchResult) {
	k := m.k
	set := m.sets[s.Version]
	k.Assert(len(res.Commitments) == len(s.VrfOutputs) && len(res.Proof.Results) == len(s.VrfOutputs), "wrong number of results")
	for j, v := range s.VrfOutputs {
		com, ok := set[string(v)]
		k.Assert(res.Proof.Results[j].Inclusion() == ok, "version %d: lookup %x: included=%v, should be %v", s.Version, v, !ok, ok)
		k.Assert(bytes.Equal(res.Commitments[j], com) && (res.Commitments[j] == nil) == !ok, "version %d: lookup %x: commitment %x, should be %x", s.Version, v, res.Commitments[j], com)
	}
	err := prefix.Verify(m.cs, m.entries(s.Version, s.VrfOutputs), &res.Proof, m.roots[s.Version])
	k.Assert(err == nil, "version %d: proof of %d lookups does not verify against the root: %v", s.Version, len(s.VrfOutputs), err)
	// A depth of 256 (two VRF outputs that differ in only the last bit) cannot
	// be encoded.
	encodable := len(s.VrfOutputs) <= 255
	for _, r := range res.Proof.Results {
		encodable = encodable && r.Depth() < 256
	}
	if encodable {
		wp := parseProof(&res.Proof)
		k.Assert(wp != nil, "proof cannot be encoded")
		dec, err := wp.decode(m.cs)
		k.Assert(err == nil, "proof cannot be decoded: %v", err)
		err = prefix.Verify(m.cs, m.entries(s.Version, s.VrfOutputs), dec, m.roots[s.Version])
		k.Assert(err == nil, "version %d: proof does not verify after being encoded and decoded: %v", s.Version, err)
	}
	k.Eval("search v%d/%d n%d of %d", min(s.Version, 30), min(m.ver(), 30), min(len(s.VrfOutputs), 30), min(len(set), 100))
}

func (m *pModel) randomSearches(n, size int) []prefix.PrefixSearch {
	var out []prefix.PrefixSearch
	for i := 0; i < n; i++ {
		ver := uint64(m.k.R.Range(1, int(m.ver())))
		out = append(out, prefix.PrefixSearch{Version: ver, VrfOutputs: m.someVrfs(ver, m.k.R.Intn(size+1))})
	}
	return out
}

// node is a node of the true tree.
type pnode struct {
	entries []pEntry
	depth   int
}

func (n pnode) hash() []byte { return refPrefix(n.entries, n.depth) }

// at walks down the true tree. ok is false if the path leads below a leaf or
// an empty node.
func (m *pModel) at(sorted []pEntry, path string) (pnode, bool) {
	n := pnode{sorted, 0}
	for i := range path {
		if len(n.entries) < 2 {
			return n, false
		}
		j := sort.Search(len(n.entries), func(j int) bool { return bitAt(n.entries[j].vrf, i) == 1 })
		if path[i] == '0' {
			n.entries = n.entries[:j]
		} else {
			n.entries = n.entries[j:]
		}
		n.depth++
	}
	return n, true
}

func pathOf(v []byte, depth int) string {
	b := make([]byte, depth)
	for i := range b {
		b[i] = '0' + byte(bitAt(v, i))
	}
	return string(b)
}

// craft makes a proof from the true tree: any results, with a copath that is
// as true as it can be.
func (m *pModel) craft(ver uint64, entries []prefix.Entry, results []wireResult) *wireProof {
	r := m.k.R
	sorted := entriesOf(m.sets[ver])
	sort.Slice(sorted, func(i, j int) bool { return bytes.Compare(sorted[i].vrf, sorted[j].vrf) < 0 })
	terminals := make(map[string]bool)
	parents := make(map[string]bool)
	for i, res := range results {
		p := pathOf(entries[i].VrfOutput, int(res.depth))
		terminals[p] = true
		for d := 0; d < len(p); d++ {
			parents[p[:d]] = true
		}
	}
	var external []string
	for p := range parents {
		for _, c := range []string{p + "0", p + "1"} {
			if !parents[c] && !terminals[c] {
				external = append(external, c)
			}
		}
	}
	sort.Strings(external)
	out := &wireProof{results: results}
	for _, p := range external {
		n, ok := m.at(sorted, p)
		h := make([]byte, 32)
		switch {
		case ok:
			h = n.hash()
		case r.P(0.5) && len(n.entries) == 1:
			h = refPrefix(n.entries, 0)
		case r.P(0.3):
			h = r.Bytes(32)
		}
		out.elements = append(out.elements, h)
	}
	return out
}

// candidates are results worth trying for a lookup.
func (m *pModel) candidates(ver uint64, v []byte) []wireResult {
	r := m.k.R
	sorted := entriesOf(m.sets[ver])
	sort.Slice(sorted, func(i, j int) bool { return bytes.Compare(sorted[i].vrf, sorted[j].vrf) < 0 })
	depth := 0
	for {
		if _, ok := m.at(sorted, pathOf(v, depth+1)); !ok || depth == 254 {
			break
		}
		depth++
	}
	end, _ := m.at(sorted, pathOf(v, depth))
	depths := []int{depth, depth, depth, max(depth-1, 0), depth + 1, r.Intn(depth + 2)}
	var out []wireResult
	for _, d := range depths {
		if d > 255 {
			continue
		}
		out = append(out, wireResult{kind: 1, depth: byte(d)}, wireResult{kind: 3, depth: byte(d)})
		var leaves []pEntry
		leaves = append(leaves, end.entries...)
		if len(leaves) > 3 {
			leaves = leaves[:3]
		}
		if len(sorted) > 0 {
			leaves = append(leaves, sorted[r.Intn(len(sorted))])
		}
		if c, ok := m.sets[ver][string(v)]; ok {
			leaves = append(leaves, pEntry{v, c})
		}
		leaves = append(leaves, pEntry{v, r.Bytes(32)}, pEntry{r.Bytes(32), r.Bytes(32)})
		// Related to a node in the tree: the two children of a parent as if
		// they were a leaf.
		if n, ok := m.at(sorted, pathOf(v, d)); ok && len(n.entries) > 1 {
			p := pathOf(v, d)
			a, _ := m.at(sorted, p+"0")
			b, _ := m.at(sorted, p+"1")
			leaves = append(leaves, pEntry{a.hash(), b.hash()})
		}
		for _, l := range leaves {
			out = append(out, wireResult{kind: 2, vrf: l.vrf, com: l.com, depth: byte(d)})
		}
	}
	return out
}
