//go:build P05

package main

import (
	"bytes"
	"math/bits"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	logmath "github.com/Bren2010/katie/tree/log/math"
)

func init() {
	register(&Check{
		ID: "P05", Level: "exploration", Min: 20000,
		Rule: "logs grown leaf by leaf compared with a directly computed Merkle tree at every size; batch proofs for every set of leaves, additional and previous size in small trees, sampled in larger ones and in former sizes of a grown log; in-memory appends and evaluations at sizes up to 2^62 with uniform leaves; an evaluation is one root or proof, keyed by the sizes and leaves",
		Run:  runP05,
	})
}

func p05Grow(k *Case, cs suites.CipherSuite, n int) (*memory.LogStore, [][]byte) {
	store := memory.NewLogStore()
	tree := log.NewTree(cs, store)
	var leaves, mem [][]byte
	for i := 0; i < n; i++ {
		leaf := k.R.Bytes(32)
		if k.R.P(0.1) && i > 0 {
			leaf = leaves[k.R.Intn(i)]
		}
		leaves = append(leaves, leaf)
		fs, err := tree.Append(uint64(i), leaf)
		k.Assert(err == nil, "append to a log of size %d failed: %v", i, err)
		prev := mem
		was := append([][]byte(nil), prev...)
		mem, err = log.Append(cs, uint64(i), mem, leaf)
		k.Assert(err == nil, "in-memory append to a log of size %d failed: %v", i, err)
		k.Assert(equalAll(prev, was), "in-memory append changed the full subtrees given to it")
		if i < 70 || i%7 == 0 || bits.OnesCount(uint(i+1)) < 3 || bits.OnesCount(uint(i+1)+1) < 3 {
			want := refFullSubtrees(leaves)
			k.Assert(equalAll(fs, want), "append: wrong full subtrees at size %d", i+1)
			k.Assert(equalAll(mem, want), "in-memory append: wrong full subtrees at size %d", i+1)
			root, err := log.Root(cs, uint64(i+1), fs)
			k.Assert(err == nil && bytes.Equal(root, refLogRoot(leaves)), "wrong root at size %d (%v)", i+1, err)
			k.Eval("grow %d", i+1)
		} else {
			k.Assert(equalAll(fs, mem), "append and in-memory append disagree at size %d", i+1)
		}
		if k.R.P(0.05) {
			tree = log.NewTree(cs, store)
		}
	}
	return store, leaves
}

func p05Proof(k *Case, cs suites.CipherSuite, store *memory.LogStore, leaves [][]byte, entries []uint64, n uint64, nP, m *uint64) {
	in := append([]uint64(nil), entries...)
	if k.R.P(0.3) {
		k.R.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
	}
	show := func(p *uint64) int64 {
		if p == nil {
			return -1
		}
		return int64(*p)
	}
	proof, err := log.NewTree(cs, store).GetBatch(in, n, nP, m)
	k.Assert(err == nil, "no proof for leaves %v of size %d, additional %d, previous %d: %v", entries, n, show(nP), show(m), err)
	v := log.NewVerifier(cs)
	if m != nil {
		check(v.Retain(*m, refFullSubtrees(leaves[:*m])))
	}
	values := make([][]byte, len(entries))
	for i, x := range entries {
		values[i] = leaves[x]
	}
	fs, add, err := v.Evaluate(entries, n, nP, values, proof)
	k.Assert(err == nil, "proof for leaves %v of size %d, additional %d, previous %d rejected: %v", entries, n, show(nP), show(m), err)
	k.Assert(equalAll(fs, refFullSubtrees(leaves[:n])), "proof for leaves %v of size %d, additional %d, previous %d evaluates to wrong full subtrees", entries, n, show(nP), show(m))
	if nP != nil {
		k.Assert(equalAll(add, refFullSubtrees(leaves[:*nP])), "proof for leaves %v of size %d, additional %d, previous %d evaluates to wrong additional subtrees", entries, n, show(nP), show(m))
	} else {
		k.Assert(len(add) == 0, "additional subtrees without an additional size")
	}
	k.Eval("proof %v %d %d %d", entries, n, show(nP), show(m))
}

func runP05(c *Ctx) {
	c.Each("grow", c.N(64, 800), func(k *Case) {
		n := pick(k.R, 40, 300, 700)
		if k.Idx == 0 {
			n = c.N(1500, 9000)
		}
		cs := suiteByID(1 + k.Idx%2)
		store, leaves := p05Grow(k, cs, n)
		for i := 0; i < 400; i++ {
			m := uint64(k.R.Range(1, n))
			if k.R.P(0.3) {
				m = min(uint64(n), uint64(1)<<k.R.Intn(11)+uint64(k.R.Intn(3)))
			}
			var nP, prev *uint64
			if k.R.P(0.5) {
				nP = ptr(uint64(k.R.Range(1, int(m))))
			}
			if k.R.P(0.5) {
				prev = ptr(uint64(k.R.Range(1, int(m))))
			}
			set := make(map[uint64]bool)
			for j := k.R.Intn(6); j > 0; j-- {
				set[uint64(k.R.Intn(int(m)))] = true
			}
			if k.R.P(0.3) {
				set[m-1] = true
			}
			p05Proof(k, cs, store, leaves, sortedPos(set), m, nP, prev)
		}
	})
	max := c.N(8, 11)
	c.Each("exhaustive", max*2, func(k *Case) {
		// Proofs for every size up to n, from a log that has grown further.
		n := uint64(k.Idx/2 + 1)
		extra := 0
		if k.Idx%2 == 1 {
			extra = k.R.Range(1, 20)
		}
		cs := suiteByID(1 + k.Idx%2)
		store, leaves := p05Grow(k, cs, int(n)+extra)
		for set := 0; set < 1<<n; set++ {
			var entries []uint64
			for i := uint64(0); i < n; i++ {
				if set>>i&1 == 1 {
					entries = append(entries, i)
				}
			}
			for nP := uint64(0); nP <= n; nP++ {
				for m := uint64(0); m <= n; m++ {
					p05Proof(k, cs, store, leaves, append([]uint64{}, entries...), n, optional(nP), optional(m))
				}
			}
		}
	})
	c.Each("pairs", c.N(34, 70), func(k *Case) {
		// Every additional and previous size in trees of up to 34 leaves.
		n := uint64(k.Idx + 1)
		cs := suiteByID(2)
		store, leaves := p05Grow(k, cs, int(n)+k.R.Intn(5))
		for nP := uint64(0); nP <= n; nP++ {
			for m := uint64(0); m <= n; m++ {
				set := map[uint64]bool{}
				for j := k.R.Intn(4); j > 0; j-- {
					set[uint64(k.R.Intn(int(n)))] = true
				}
				p05Proof(k, cs, store, leaves, sortedPos(set), n, optional(nP), optional(m))
			}
		}
	})
	c.Each("invalid", c.N(8, 40), func(k *Case) {
		cs := suiteByID(2)
		n := k.R.Range(1, 40)
		store, _ := p05Grow(k, cs, n)
		t := log.NewTree(cs, store)
		u := uint64(n)
		for i, f := range []func() ([][]byte, error){
			func() ([][]byte, error) { return t.GetBatch([]uint64{0}, 0, nil, nil) },
			func() ([][]byte, error) { return t.GetBatch([]uint64{u}, u, nil, nil) },
			func() ([][]byte, error) { return t.GetBatch([]uint64{0, 0}, u, nil, nil) },
			func() ([][]byte, error) { return t.GetBatch(nil, u, ptr(u+1), nil) },
			func() ([][]byte, error) { return t.GetBatch(nil, u, nil, ptr(u+1)) },
			func() ([][]byte, error) { return t.GetBatch(nil, u, ptr(uint64(0)), nil) },
			func() ([][]byte, error) { return t.GetBatch(nil, u, nil, ptr(uint64(0))) },
			func() ([][]byte, error) { return t.GetBatch([]uint64{0}, u+1000, nil, nil) },
			func() ([][]byte, error) { return t.GetBatch([]uint64{0}, ^uint64(0), nil, nil) },
			func() ([][]byte, error) { return t.Append(^uint64(0), make([]byte, 32)) },
			func() ([][]byte, error) { return t.Append(u, make([]byte, 31)) },
			func() ([][]byte, error) { return t.Append(u, nil) },
		} {
			before := make(map[uint64][]byte)
			for a, b := range store.Data {
				before[a] = b
			}
			_, err := f()
			k.Assert(err != nil, "invalid request %d was not refused", i)
			k.Assert(len(before) == len(store.Data), "refused request %d changed the log", i)
			for a, b := range before {
				k.Assert(bytes.Equal(store.Data[a], b), "refused request %d changed the log", i)
			}
			k.Eval("invalid %d", i)
		}
	})
	c.Each("huge", c.N(3000, 100000), p05Huge)
}

func optional(x uint64) *uint64 {
	if x == 0 {
		return nil
	}
	return &x
}

// p05Huge uses trees whose leaves all have the same value, so that the value
// of every full subtree follows from its height.
func p05Huge(k *Case) {
	cs := suiteByID(2)
	leaf := k.R.Bytes(32)
	heights := [][]byte{leaf}
	for h := 0; h < 64; h++ {
		tag := []byte{1}
		if h == 0 {
			tag = []byte{0}
		}
		heights = append(heights, sum(tag, heights[h], tag, heights[h]))
	}
	subtrees := func(n uint64) [][]byte {
		var out [][]byte
		for n > 0 {
			h := bits.Len64(n) - 1
			out = append(out, heights[h])
			n -= 1 << h
		}
		return out
	}
	root := func(n uint64) []byte {
		var acc []byte
		accLeaf := false
		for first := true; n > 0; first = false {
			h := bits.TrailingZeros64(n)
			n &= n - 1
			if first {
				acc, accLeaf = heights[h], h == 0
				continue
			}
			acc = sum([]byte{1}, heights[h], []byte{b2i(!accLeaf)}, acc)
			accLeaf = false
		}
		return acc
	}
	size := func() uint64 {
		n := uint64(1)<<uint(k.R.Range(2, 61)) + uint64(k.R.Range(0, 6)) - 3
		if k.R.P(0.4) {
			n = k.R.Uint64() >> uint(k.R.Range(3, 60))
		}
		return max(n, 1)
	}
	n := size()
	got, err := log.Append(cs, n, subtrees(n), leaf)
	k.Assert(err == nil && equalAll(got, subtrees(n+1)), "in-memory append at size %d is wrong (%v)", n, err)
	r, err := log.Root(cs, n, subtrees(n))
	k.Assert(err == nil && bytes.Equal(r, root(n)), "root of %d is wrong (%v)", n, err)
	k.Eval("huge append %d", n)

	for i := 0; i < 10; i++ {
		n := size()
		below := func() *uint64 {
			switch k.R.Intn(4) {
			case 0:
				return nil
			case 1:
				return ptr(max(1, n-uint64(k.R.Intn(5))))
			case 2:
				return ptr(max(1, n>>uint(k.R.Intn(5))))
			}
			return ptr(1 + uint64(k.R.Int63n(int64(n))))
		}
		nP, m := below(), below()
		if nP != nil {
			nP = ptr(min(*nP, n))
		}
		if m != nil {
			m = ptr(min(*m, n))
		}
		set := make(map[uint64]bool)
		for j := k.R.Intn(5); j > 0; j-- {
			set[uint64(k.R.Int63n(int64(n)))] = true
		}
		entries := sortedPos(set)
		var values, proof [][]byte
		for range entries {
			values = append(values, leaf)
		}
		for _, id := range logmath.BatchCopath(entries, n, nP, m) {
			proof = append(proof, heights[logmath.Level(id)])
		}
		v := log.NewVerifier(cs)
		if m != nil {
			check(v.Retain(*m, subtrees(*m)))
		}
		fs, add, err := v.Evaluate(entries, n, nP, values, proof)
		k.Assert(err == nil, "evaluation for %v of %d fails: %v", entries, n, err)
		k.Assert(equalAll(fs, subtrees(n)), "evaluation for %v of %d, additional %v, previous %v is wrong", entries, n, nP, m)
		if nP != nil {
			k.Assert(equalAll(add, subtrees(*nP)), "evaluation for %v of %d: additional subtrees of %d are wrong", entries, n, *nP)
		}
		k.Eval("huge proof %d %v", n, entries)
	}
}

func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}
