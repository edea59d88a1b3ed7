package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/bits"
	"sort"
)

// Reference definitions, written from the specification and independent of
// katie's code. Both cipher suites use SHA-256.

func sum(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func u64(x uint64) []byte { return binary.BigEndian.AppendUint64(nil, x) }

// refLeaf is the value of the leaf of the log tree for a log entry.
func refLeaf(ts uint64, root []byte) []byte { return sum(u64(ts), root) }

func splitSize(n int) int { return 1 << (bits.Len(uint(n-1)) - 1) }

// refLogRoot is the root of the left-balanced Merkle tree with the given leaf
// values.
func refLogRoot(leaves [][]byte) []byte {
	if len(leaves) == 1 {
		return leaves[0]
	}
	s := splitSize(len(leaves))
	tag := func(n int) []byte {
		if n == 1 {
			return []byte{0}
		}
		return []byte{1}
	}
	return sum(tag(s), refLogRoot(leaves[:s]), tag(len(leaves)-s), refLogRoot(leaves[s:]))
}

// refFullSubtrees is the list of roots of the maximal full subtrees.
func refFullSubtrees(leaves [][]byte) [][]byte {
	var out [][]byte
	for len(leaves) > 0 {
		s := 1 << (bits.Len(uint(len(leaves))) - 1)
		out = append(out, refLogRoot(leaves[:s]))
		leaves = leaves[s:]
	}
	return out
}

type pEntry struct{ vrf, com []byte }

func bitAt(b []byte, i int) int { return int(b[i/8]>>(7-uint(i%8))) & 1 }

// refPrefixRoot is the root of the prefix tree holding exactly these entries.
func refPrefixRoot(entries []pEntry) []byte {
	s := make([]pEntry, len(entries))
	copy(s, entries)
	sort.Slice(s, func(i, j int) bool { return bytes.Compare(s[i].vrf, s[j].vrf) < 0 })
	return refPrefix(s, 0)
}

func refPrefix(s []pEntry, depth int) []byte {
	switch len(s) {
	case 0:
		return make([]byte, 32)
	case 1:
		return sum([]byte{2}, s[0].vrf, s[0].com)
	}
	i := sort.Search(len(s), func(i int) bool { return bitAt(s[i].vrf, depth) == 1 })
	return sum([]byte{3}, refPrefix(s[:i], depth+1), refPrefix(s[i:], depth+1))
}

// Implicit binary search tree over positions 0..n-1: the root of a range of
// the given size that starts at base.
func rangeRoot(base, size uint64) uint64 {
	return base + 1<<(bits.Len64(size)-1) - 1
}

// bstPath returns the path from the root to x.
func bstPath(x, n uint64) []uint64 {
	var path []uint64
	base, size := uint64(0), n
	for {
		r := rangeRoot(base, size)
		path = append(path, r)
		if r == x {
			return path
		} else if x < r {
			size = r - base
		} else {
			size -= r + 1 - base
			base = r + 1
		}
	}
}

// bstFrontier returns the path from the root to the rightmost entry.
func bstFrontier(n uint64) []uint64 { return bstPath(n-1, n) }

// bstRightAncestors returns the ancestors of x that are to its right, nearest
// first.
func bstRightAncestors(x, n uint64) []uint64 {
	path := bstPath(x, n)
	var out []uint64
	for i := len(path) - 2; i >= 0; i-- {
		if path[i] > x {
			out = append(out, path[i])
		}
	}
	return out
}

// refDistinguished returns the set of distinguished log entries, ascending.
func refDistinguished(ts []uint64, rmw uint64) []uint64 {
	var out []uint64
	var rec func(base, size, left, right uint64)
	rec = func(base, size, left, right uint64) {
		if size == 0 || right-left < rmw {
			return
		}
		x := rangeRoot(base, size)
		rec(base, x-base, left, ts[x])
		out = append(out, x)
		rec(x+1, base+size-x-1, ts[x], right)
	}
	if len(ts) > 0 {
		rec(0, uint64(len(ts)), 0, ts[len(ts)-1])
	}
	return out
}

// refRightmostDLE returns the rightmost distinguished log entry, or -1.
func refRightmostDLE(ts []uint64, rmw uint64) int {
	d := refDistinguished(ts, rmw)
	if len(d) == 0 {
		return -1
	}
	return int(d[len(d)-1])
}

// refPrevDLE returns the rightmost distinguished log entry to the left of the
// last one, or -1.
func refPrevDLE(ts []uint64, rmw uint64) int {
	d := refDistinguished(ts, rmw)
	for i := len(d) - 1; i >= 0; i-- {
		if int(d[i]) != len(ts)-1 {
			return int(d[i])
		}
	}
	return -1
}

func equalAll(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
