//go:build P06

package main

import (
	"bytes"
	"fmt"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
)

func init() {
	register(&Check{
		ID: "P06", Level: "exploration", Min: 50000,
		Rule: "true log proofs with leaf values, positions, proof elements and their number and order, retained subtrees and sizes altered in one or several places, and proofs transplanted between requests and trees; an evaluation is one such proof, keyed by kind of alteration, sizes and result",
		Run:  runP06,
	})
}

func runP06(c *Ctx) {
	c.Each("alter", c.N(2500, 60000), func(k *Case) {
		cs := suiteByID(1 + k.R.Intn(2))
		store := memory.NewLogStore()
		tree := log.NewTree(cs, store)
		n := k.R.Range(1, 12)
		if k.R.P(0.3) {
			n = k.R.Range(13, 80)
		}
		var leaves [][]byte
		for i := 0; i < n; i++ {
			leaves = append(leaves, k.R.Bytes(32))
			must(tree.Append(uint64(i), leaves[i]))
		}
		type args struct {
			entries []uint64
			n       uint64
			nP, m   *uint64
			values  [][]byte
			proof   [][]byte
			retain  [][]byte
		}
		gen := func() *args {
			a := &args{n: uint64(k.R.Range(1, n))}
			if k.R.P(0.5) {
				a.nP = ptr(uint64(k.R.Range(1, int(a.n))))
			}
			if k.R.P(0.5) {
				a.m = ptr(uint64(k.R.Range(1, int(a.n))))
				a.retain = refFullSubtrees(leaves[:*a.m])
			}
			set := make(map[uint64]bool)
			for j := k.R.Range(0, 5); j > 0; j-- {
				set[uint64(k.R.Intn(int(a.n)))] = true
			}
			a.entries = sortedPos(set)
			for _, x := range a.entries {
				a.values = append(a.values, leaves[x])
			}
			a.proof = must(tree.GetBatch(append([]uint64{}, a.entries...), a.n, a.nP, a.m))
			return a
		}
		cp := func(b [][]byte) [][]byte {
			var out [][]byte
			for _, x := range b {
				out = append(out, bytes.Clone(x))
			}
			return out
		}
		list := func(b [][]byte) ([][]byte, string) {
			if len(b) == 0 {
				return [][]byte{k.R.Bytes(32)}, "add"
			}
			i, j := k.R.Intn(len(b)), k.R.Intn(len(b))
			switch k.R.Intn(8) {
			case 0, 1:
				if len(b[i]) == 0 {
					return b, "nothing"
				}
				b[i][k.R.Intn(len(b[i]))] ^= 1 << k.R.Intn(8)
				return b, "flip"
			case 2:
				b[i], b[j] = b[j], b[i]
				return b, "swap"
			case 3:
				return append(b[:i:i], b[i+1:]...), "drop"
			case 4:
				return append(b[:i:i], append([][]byte{b[j]}, b[i:]...)...), "dup"
			case 5:
				b[i] = leaves[k.R.Intn(len(leaves))]
				return b, "leaf"
			case 6:
				b[i] = b[i][:k.R.Intn(len(b[i])+1)]
				return b, "short"
			}
			b[i] = sum([]byte{1}, b[i], []byte{1}, b[j])
			return b, "inner"
		}
		for try := 0; try < 500; try++ {

			a := gen()
			a.proof, a.values, a.retain = cp(a.proof), cp(a.values), cp(a.retain)
			desc := ""
			for i := pick(k.R, 1, 1, 1, 2, 3); i > 0; i-- {
				var d string
				switch k.R.Intn(10) {
				case 0, 1:
					a.proof, d = list(a.proof)
					d = "proof " + d
				case 2, 3:
					a.values, d = list(a.values)
					d = "values " + d
				case 4:
					if a.m != nil {
						a.retain, d = list(a.retain)
						d = "retained " + d
					}
				case 5:
					if len(a.entries) > 0 {
						a.entries[k.R.Intn(len(a.entries))] = uint64(k.R.Intn(int(a.n) + 1))
						d = "position"
					}
				case 6:
					a.n = uint64(max(0, int(a.n)+pick(k.R, -1, 1, -2, 2, 4, -4)))
					d = "size"
				case 7:
					if a.nP != nil {
						a.nP = ptr(uint64(max(0, int(*a.nP)+pick(k.R, -1, 1, -2, 2))))
					} else {
						a.nP = ptr(uint64(k.R.Range(1, int(a.n)+1)))
					}
					d = "additional size"
				case 8:
					o := gen()
					switch k.R.Intn(3) {
					case 0:
						a.proof = cp(o.proof)
					case 1:
						a.entries, a.values = o.entries, cp(o.values)
					case 2:
						a.m, a.retain = o.m, cp(o.retain)
					}
					d = "transplant"
				case 9:
					if a.m != nil {
						a.m = ptr(uint64(max(0, int(*a.m)+pick(k.R, -1, 1))))
						d = "previous size"
					}
				}
				desc += d + " "
			}
			v := log.NewVerifier(cs)
			if a.m != nil {
				if v.Retain(*a.m, a.retain) != nil {
					k.Eval("retain refused %s", desc)
					k.Count("refused", 1)
					continue
				}
			}
			fs, add, err := v.Evaluate(append([]uint64{}, a.entries...), a.n, a.nP, cp(a.values), cp(a.proof))
			res := "refused"
			if err == nil {
				res = "other root"
				k.Assert(a.n >= 1 && (a.nP == nil || *a.nP <= a.n), "evaluation with impossible sizes succeeded")
				root, err := log.Root(cs, a.n, fs)
				if err == nil && int(a.n) <= n && bytes.Equal(root, refLogRoot(leaves[:a.n])) {
					res = "true root"
					what := fmt.Sprintf("%s: leaves %v of %d, additional %v, previous %v, evaluates to the true root", desc, a.entries, a.n, a.nP, a.m)
					for i, x := range a.entries {
						k.Assert(x < a.n && bytes.Equal(a.values[i], leaves[x]), "%s with a wrong value of leaf %d", what, x)
					}
					k.Assert(equalAll(fs, refFullSubtrees(leaves[:a.n])), "%s with wrong full subtrees", what)
					if a.nP != nil {
						k.Assert(equalAll(add, refFullSubtrees(leaves[:*a.nP])), "%s with wrong additional subtrees", what)
					}
					if a.m != nil {
						k.Assert(*a.m <= a.n && equalAll(a.retain, refFullSubtrees(leaves[:*a.m])), "%s with wrong retained subtrees", what)
					}
				} else if a.nP != nil && int(*a.nP) <= n {
					// Nothing is claimed about the additional tree then.
					_ = add
				}
			}
			k.Eval("%s %d %s", desc, a.n, res)
			k.Count(res, 1)
		}
	})
}
