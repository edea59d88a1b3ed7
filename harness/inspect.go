package main

import (
	"bytes"

	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// prefixSet is the exact content that the prefix tree has to have now: VRF
// outputs and commitments of every version of every label.
func (w *World) prefixSet() []pEntry {
	var out []pEntry
	for l, vs := range w.cur {
		for v := range vs {
			oav := w.stored([]byte(l), uint32(v))
			if oav == nil {
				w.k.Fail("version %d of %q is not stored", v, l)
			}
			vrf, _ := w.vrfOf([]byte(l), uint32(v))
			out = append(out, pEntry{vrf, w.commit([]byte(l), uint32(v), oav)})
		}
	}
	return out
}

// inspect compares everything in the database with the model. Everyday
// operations are then tried by clients, unless some label was removed so
// recently that they can't work.
func (w *World) inspect(what string, clients bool) {
	k := w.k
	if w.n() == 0 {
		return
	}
	head := w.treeHead()
	k.Assert(head != nil && head.TreeSize == w.n(), "%s: tree head is not of size %d: %+v", what, w.n(), head)
	root := refLogRoot(w.leaves(w.n()))
	tbs := mustMarshal(&structs.TreeHeadTBS{Config: w.pub, TreeSize: w.n(), Root: root})
	k.Assert(w.pub.SignatureKey.Verify(tbs, head.Signature), "%s: tree head is not signed over the root of the log entries", what)
	raw, _, err := w.store.GetTreeHead()
	k.Assert(err == nil && bytes.Equal(raw, mustMarshal(head)), "%s: stored tree head is not the one in use", what)

	// Values and positions.
	for _, l := range w.names {
		vs := w.cur[string(l)]
		for v, ver := range vs {
			oav := w.stored(l, uint32(v))
			k.Assert(oav != nil && bytes.Equal(oav.Value.Value, ver.Value) && bytes.Equal(oav.Value.Signature, ver.Sig),
				"%s: stored value of version %d of %q is not %.20q", what, v, l, ver.Value)
		}
		raw, err := w.store.GetVersion(l, uint32(len(vs)))
		k.Assert(err == nil && raw == nil, "%s: %q has a value stored for version %d, which does not exist", what, l, len(vs))
		if w.wasRemoved(l) {
			continue // the versions of an earlier life get in the way
		}
		got, err := w.versions(l)
		k.Assert(err == nil, "%s: versions of %q: %v", what, l, err)
		k.Assert(len(got) == len(vs), "%s: %q has %d versions, not %d", what, l, len(got), len(vs))
		for v := range vs {
			k.Assert(bytes.Equal(got[v].Value, vs[v].Value), "%s: version %d of %q is %.20q, not %.20q", what, v, l, got[v].Value, vs[v].Value)
			k.Assert(got[v].Pos == vs[v].Pos, "%s: version %d of %q is said to be from entry %d, not %d", what, v, l, got[v].Pos, vs[v].Pos)
		}
	}

	// Prefix trees: the present one, and earlier ones by lookups.
	last := w.hist[w.n()-1]
	want := refPrefixRoot(w.prefixSet())
	k.Assert(bytes.Equal(last.Root, want), "%s: prefix tree of entry %d is not the one of the labels", what, w.n()-1)
	for i := 0; i < 3; i++ {
		x := uint64(w.r.Intn(int(w.n())))
		l := pick(w.r, w.names...)
		vs := w.hist[x].Labels[string(l)]
		ver := uint32(w.r.Intn(len(vs) + 1))
		vrf, _ := w.vrfOf(l, ver)
		res, err := prefix.NewTree(w.cs, w.store.PrefixStore()).Search([]prefix.PrefixSearch{{Version: x + 1, VrfOutputs: [][]byte{vrf}}})
		k.Assert(err == nil, "%s: lookup in prefix tree %d: %v", what, x, err)
		in := res[0].Proof.Results[0].Inclusion()
		k.Assert(in == (int(ver) < len(vs)), "%s: prefix tree %d contains version %d of %q: %v", what, x, ver, l, in)
		err = prefix.Verify(w.cs, []prefix.Entry{{VrfOutput: vrf, Commitment: res[0].Commitments[0]}}, &res[0].Proof, w.hist[x].Root)
		k.Assert(err == nil, "%s: proof from prefix tree %d: %v", what, x, err)
	}
	// Log tree.
	x := uint64(w.r.Intn(int(w.n())))
	proof, err := log.NewTree(w.cs, w.store.LogStore()).GetBatch([]uint64{x}, w.n(), nil, nil)
	k.Assert(err == nil, "%s: log proof: %v", what, err)
	fs, _, err := log.NewVerifier(w.cs).Evaluate([]uint64{x}, w.n(), nil, [][]byte{refLeaf(w.hist[x].Ts, w.hist[x].Root)}, proof)
	k.Assert(err == nil && equalAll(fs, refFullSubtrees(w.leaves(w.n()))), "%s: log proof of entry %d is wrong: %v", what, x, err)

	if clients {
		w.inspectSearch(what)
	}
	k.Eval("inspect %s n%d", what, min(w.n(), 40))
}

// inspectSearch has a new client search for everything.
func (w *World) inspectSearch(what string) {
	k := w.k
	cl := w.newClient()
	for _, l := range w.names {
		vs := w.cur[string(l)]
		res, out := cl.Search(l, nil)
		if len(vs) == 0 {
			k.Assert(out.srv == nil && isNotFound(out.err), "%s: search for %q, which has no versions: %v", what, l, out)
			continue
		}
		k.Assert(out.ok(), "%s: search for %q: %v", what, l, out)
		k.Assert(*res.Version == uint32(len(vs)-1) && bytes.Equal(res.Value.Value, vs[len(vs)-1].Value), "%s: search for %q found version %v, %.20q", what, l, *res.Version, res.Value.Value)
		v := uint32(w.r.Intn(len(vs)))
		res, out = cl.Search(l, &v)
		k.Assert(out.ok() && bytes.Equal(res.Value.Value, vs[v].Value), "%s: search for version %d of %q: %v", what, v, l, out)
	}
}

// wasRemoved returns whether a label has been removed at any time.
func (w *World) wasRemoved(l []byte) bool {
	for _, e := range w.hist {
		for _, x := range e.Removed {
			if x == string(l) {
				return true
			}
		}
	}
	return false
}
