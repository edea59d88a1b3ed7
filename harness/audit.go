package main

import (
	"bytes"
	"errors"
	"sort"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// collapses says whether an update makes the server collapse part of the tree
// onto a leaf that is not part of the update, which the auditor can't know to
// be a leaf (see DESIGN.md, known findings).
func collapses(set map[string][]byte, add, remove [][]byte) bool {
	sorted := entriesOf(set)
	sort.Slice(sorted, func(i, j int) bool { return bytes.Compare(sorted[i].vrf, sorted[j].vrf) < 0 })
	found := false
	split := func(vrfs [][]byte, depth int) (l, r [][]byte) {
		for _, v := range vrfs {
			if bitAt(v, depth) == 0 {
				l = append(l, v)
			} else {
				r = append(r, v)
			}
		}
		return
	}
	// Results: empty, leaf, hidden leaf, something else.
	var rec func(s []pEntry, add, remove [][]byte, depth int) byte
	rec = func(s []pEntry, add, remove [][]byte, depth int) byte {
		if len(add) == 0 && len(remove) == 0 {
			switch len(s) {
			case 0:
				return 'E'
			case 1:
				return 'H'
			}
			return 'P'
		}
		if len(s) < 2 {
			keep := 0
			for _, e := range s {
				keep = 1
				for _, v := range remove {
					if bytes.Equal(v, e.vrf) {
						keep = 0
					}
				}
			}
			switch keep + len(add) {
			case 0:
				return 'E'
			case 1:
				return 'L'
			}
			return 'P'
		}
		i := sort.Search(len(s), func(i int) bool { return bitAt(s[i].vrf, depth) == 1 })
		la, ra := split(add, depth)
		lr, rr := split(remove, depth)
		l, r := rec(s[:i], la, lr, depth+1), rec(s[i:], ra, rr, depth+1)
		if l == 'E' && r == 'E' {
			return 'E'
		} else if l == 'E' && r != 'P' || r == 'E' && l != 'P' {
			if l == 'H' || r == 'H' {
				found = true
				return 'H'
			}
			return 'L'
		}
		return 'P'
	}
	rec(sorted, add, remove, 0)
	return found
}

// auditedLog is a log whose prefix tree entries are chosen freely.
type auditedLog struct {
	*pModel
	pub  *structs.PublicConfig
	key  suites.SigningPrivateKey
	rmw  uint64
	ts   []uint64
	pos  []map[string]uint64 // where each present entry was added, by version
	now  uint64
	size int
}

func newAuditedLog(k *Case) *auditedLog {
	r := k.R
	m := newPModel(k)
	l := &auditedLog{pModel: m, rmw: pick(r, uint64(100), 100, 1, 10, 1000), now: pick(r, uint64(0), 50, 1_700_000_000_000), pos: []map[string]uint64{{}}, size: pick(r, 1, 2, 5, 12)}
	l.key = genSigningKey(r, m.cs)
	priv := structs.PrivateConfig{SignatureKey: genSigningKey(r, m.cs), VrfKey: must(m.cs.ParseVRFPrivateKey(keyBytes(r))), Config: structs.Config{
		Suite: m.cs, Mode: structs.ThirdPartyAuditing, MaxAhead: huge, MaxBehind: huge,
		ReasonableMonitoringWindow: l.rmw, MaxAuditorLag: huge,
	}}
	priv.AuditorPublicKey = l.key.Public()
	l.pub = priv.Public()
	return l
}

func (l *auditedLog) n() uint64 { return uint64(len(l.ts)) }

// eligible returns the entries that may be removed by an update with the given
// timestamp.
func (l *auditedLog) eligible(ts uint64) [][]byte {
	prev := refPrevDLE(append(append([]uint64(nil), l.ts...), ts), l.rmw)
	var out [][]byte
	for _, v := range l.keys(l.ver()) {
		if int(l.pos[l.ver()][string(v)]) <= prev {
			out = append(out, v)
		}
	}
	return out
}

func sortEntries(e []prefix.Entry) {
	sort.Slice(e, func(i, j int) bool { return bytes.Compare(e[i].VrfOutput, e[j].VrfOutput) < 0 })
}

func sortBytes(b [][]byte) {
	sort.Slice(b, func(i, j int) bool { return bytes.Compare(b[i], b[j]) < 0 })
}

func vrfsOf(e []prefix.Entry) [][]byte {
	var out [][]byte
	for _, x := range e {
		out = append(out, x.VrfOutput)
	}
	return out
}

func (l *auditedLog) advance() {
	r := l.k.R
	l.now += pick(r, 0, 1, l.rmw/4, l.rmw/2, l.rmw, l.rmw+1, 3*l.rmw, uint64(r.Intn(int(l.rmw)+1)))
}

// plan picks a legitimate change.
func (l *auditedLog) plan() (add []prefix.Entry, remove [][]byte) {
	r := l.k.R
	cur := l.sets[l.ver()]
	for try := 0; ; try++ {
		add, remove = nil, nil
		seen := map[string]bool{}
		for i := r.Intn(l.size + 1); i > 0; i-- {
			v := l.vrf()
			if r.P(0.3) {
				v = l.pool[r.Intn(len(l.pool))]
			}
			if _, ok := cur[string(v)]; !ok && !seen[string(v)] {
				seen[string(v)] = true
				add = append(add, prefix.Entry{VrfOutput: v, Commitment: r.Bytes(32)})
			}
		}
		rate := pick(r, 0, 0.2, 0.6, 1)
		for _, v := range l.eligible(l.now) {
			if r.P(rate) {
				remove = append(remove, v)
				if r.P(0.3) {
					add = append(add, prefix.Entry{VrfOutput: v, Commitment: r.Bytes(32)})
				}
			}
		}
		if try == 8 {
			remove = nil
			keep := add[:0]
			for _, e := range add {
				if _, ok := cur[string(e.VrfOutput)]; !ok {
					keep = append(keep, e)
				}
			}
			add = keep
		}
		// The encoding only has room for so many.
		if len(add)+len(remove) < 250 && !collapses(cur, vrfsOf(add), remove) && encodableStep(cur, add, remove) {
			break
		}
	}
	sortEntries(add)
	sortBytes(remove)
	return
}

// encodableStep excludes VRF outputs that differ in only the last bit, whose
// depth can't be encoded.
func encodableStep(cur map[string][]byte, add []prefix.Entry, remove [][]byte) bool {
	flip := func(v []byte) string {
		w := bytes.Clone(v)
		w[31] ^= 1
		return string(w)
	}
	in := make(map[string]bool)
	for v := range cur {
		in[v] = true
	}
	for _, e := range add {
		in[string(e.VrfOutput)] = true
	}
	for v := range in {
		if in[flip([]byte(v))] {
			return false
		}
	}
	return true
}

// update builds the update for a change, honest or not, without applying it.
func (l *auditedLog) update(ts uint64, add []prefix.Entry, remove [][]byte) *structs.AuditorUpdate {
	cur := l.sets[l.ver()]
	u := &structs.AuditorUpdate{Timestamp: ts, Added: add}
	vrfs := vrfsOf(add)
	for _, v := range remove {
		vrfs = append(vrfs, v)
		u.Removed = append(u.Removed, prefix.Entry{VrfOutput: v, Commitment: cur[string(v)]})
	}
	if l.ver() == 0 {
		for range vrfs {
			u.Proof.Results = append(u.Proof.Results, emptyTreeResult(l.cs))
		}
		if len(vrfs) == 0 {
			u.Proof.Elements = [][]byte{make([]byte, 32)}
		}
		return u
	}
	res := must(prefix.NewTree(l.cs, l.store).Search([]prefix.PrefixSearch{{Version: l.ver(), VrfOutputs: vrfs}}))
	u.Proof = res[0].Proof
	return u
}

func emptyTreeResult(cs suites.CipherSuite) prefix.PrefixSearchResult {
	p := must((&wireProof{results: []wireResult{{kind: 3}}}).decode(cs))
	return p.Results[0]
}

// apply makes a legitimate change part of the log.
func (l *auditedLog) apply(ts uint64, add []prefix.Entry, remove [][]byte) {
	l.mutate(add, remove)
	pos := make(map[string]uint64)
	for v, p := range l.pos[len(l.pos)-1] {
		pos[v] = p
	}
	for _, v := range remove {
		delete(pos, string(v))
	}
	for _, e := range add {
		pos[string(e.VrfOutput)] = l.n()
	}
	l.pos = append(l.pos, pos)
	l.ts = append(l.ts, ts)
}

func (l *auditedLog) leaves() [][]byte {
	out := make([][]byte, len(l.ts))
	for i := range out {
		out[i] = refLeaf(l.ts[i], l.roots[i+1])
	}
	return out
}

// wireUpdate sends an update over the wire.
func wireUpdate(k *Case, cs suites.CipherSuite, raw []byte) *structs.AuditorUpdate {
	buf := bytes.NewBuffer(bytes.Clone(raw))
	u, err := structs.NewAuditorUpdate(cs, buf)
	k.Assert(err == nil && buf.Len() == 0, "update does not decode: %v, %d bytes left", err, buf.Len())
	return u
}

// auditorStore is the auditor's database, which may fail.
type auditorStore struct {
	state []byte
	fail  bool
	puts  int
}

func (s *auditorStore) GetState() ([]byte, error) { return bytes.Clone(s.state), nil }

func (s *auditorStore) PutState(raw []byte) error {
	if s.fail {
		return errors.New("injected failure")
	}
	s.puts++
	s.state = bytes.Clone(raw)
	return nil
}

var _ db.AuditorStore = (*auditorStore)(nil)
var _ = memory.NewAuditorStore

func newAuditor(k *Case, pub *structs.PublicConfig, key suites.SigningPrivateKey, store *auditorStore) *auditor.Auditor {
	a, err := auditor.NewAuditor(pub, key, store)
	k.Assert(err == nil, "auditor cannot be started from its stored state: %v", err)
	return a
}

// checkHead checks what the auditor has signed.
func checkHead(k *Case, pub *structs.PublicConfig, head *structs.AuditorTreeHead, ts []uint64, leaves [][]byte) {
	n := uint64(len(leaves))
	k.Assert(head.TreeSize == n, "auditor signs a tree of size %d, not %d", head.TreeSize, n)
	k.Assert(head.Timestamp == ts[n-1], "auditor signs timestamp %d, not %d", head.Timestamp, ts[n-1])
	tbs := mustMarshal(&structs.AuditorTreeHeadTBS{Config: pub, Timestamp: head.Timestamp, TreeSize: n, Root: refLogRoot(leaves)})
	k.Assert(pub.AuditorPublicKey.Verify(tbs, head.Signature), "signature of the auditor at size %d is not over the root of the log", n)
}

// auditorState is the persisted state without the signature, which is not
// deterministic for every suite.
func auditorState(k *Case, cs suites.CipherSuite, raw []byte) *auditor.AuditorState {
	buf := bytes.NewBuffer(bytes.Clone(raw))
	st, err := auditor.NewAuditorState(cs, buf)
	k.Assert(err == nil && buf.Len() == 0, "auditor state does not decode: %v", err)
	again, err := st.Marshal()
	k.Assert(err == nil && bytes.Equal(again, raw), "auditor state does not encode to the same bytes: %v", err)
	st.TreeHead.Signature = nil
	return st
}

// labelSet is the prefix tree content that the labels stand for.
func (w *World) labelSet(labels map[string][]Ver) map[string][]byte {
	out := make(map[string][]byte)
	for l, vs := range labels {
		for v := range vs {
			out[string(w.vrfCached(l, uint32(v)))] = nil
		}
	}
	return out
}

var vrfCache = map[string]map[uint32][]byte{}

func (w *World) vrfCached(l string, v uint32) []byte {
	key := string(w.pub.VrfKey.Bytes()) + l
	if vrfCache[key] == nil {
		vrfCache[key] = make(map[uint32][]byte)
	}
	if out, ok := vrfCache[key][v]; ok {
		return out
	}
	out, _ := w.vrfOf([]byte(l), v)
	vrfCache[key][v] = out
	return out
}

// collapsing says whether a mutation would make the tree collapse onto a leaf.
func (w *World) collapsing(adds []Add, removes [][]byte) bool {
	next := make(map[string]int)
	var rm, add [][]byte
	gone := make(map[string]bool)
	for _, l := range removes {
		if gone[string(l)] {
			continue
		}
		gone[string(l)] = true
		for v := range w.cur[string(l)] {
			rm = append(rm, w.vrfCached(string(l), uint32(v)))
		}
	}
	for _, a := range adds {
		l := string(a.Label)
		if _, ok := next[l]; !ok && !gone[l] {
			next[l] = len(w.cur[l])
		}
		add = append(add, w.vrfCached(l, uint32(next[l])))
		next[l]++
	}
	return collapses(w.labelSet(w.cur), add, rm)
}
