package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	logmath "github.com/Bren2010/katie/tree/log/math"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// A deep log is a real server over a virtual log: its database answers as if
// the log had grown to its size entry by entry, although most of what it
// contains is computed when somebody reads it. What the server writes is kept.

// deepStore is the database of a deep log.
type deepStore struct {
	mem *memory.TransparencyStore
	v   *Virtual
	n   uint64 // entries that are not in mem
}

func (s *deepStore) Clone() db.TransparencyStore {
	return &deepStore{s.mem.Clone().(*memory.TransparencyStore), s.v, s.n}
}
func (s *deepStore) GetTreeHead() ([]byte, []byte, error)            { return s.mem.GetTreeHead() }
func (s *deepStore) PutTreeHead(raw []byte) error                    { return s.mem.PutTreeHead(raw) }
func (s *deepStore) PutAuditorTreeHead(raw []byte) error             { return s.mem.PutAuditorTreeHead(raw) }
func (s *deepStore) BatchGetIndex(l [][]byte) ([][]byte, error)      { return s.mem.BatchGetIndex(l) }
func (s *deepStore) PutIndex(label, index []byte) error              { return s.mem.PutIndex(label, index) }
func (s *deepStore) DeleteIndex(label []byte) error                  { return s.mem.DeleteIndex(label) }
func (s *deepStore) GetVersion(l []byte, ver uint32) ([]byte, error) { return s.mem.GetVersion(l, ver) }
func (s *deepStore) PutVersion(l []byte, ver uint32, d []byte) error {
	return s.mem.PutVersion(l, ver, d)
}
func (s *deepStore) DeleteVersion(l []byte, ver uint32) error { return s.mem.DeleteVersion(l, ver) }
func (s *deepStore) Put(key uint64, data []byte) error        { return s.mem.Put(key, data) }
func (s *deepStore) Delete(key uint64) error                  { return s.mem.Delete(key) }
func (s *deepStore) LogStore() db.LogStore                    { return &deepLog{s.mem.LogStore(), s.v, s.n} }
func (s *deepStore) PrefixStore() db.PrefixStore              { return &deepPrefix{s.mem.PrefixStore(), s.v, s.n} }
func (s *deepStore) Commit() error                            { return s.mem.Commit() }

func (s *deepStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out, err := s.mem.BatchGet(keys)
	if err != nil {
		return nil, err
	}
	for _, x := range keys {
		if _, ok := out[x]; !ok && x < s.n {
			e := s.v.epoch(x)
			out[x] = mustMarshal(&structs.LogEntry{Timestamp: e.ts, PrefixTree: e.root})
		}
	}
	return out, nil
}

type deepLog struct {
	db.LogStore
	v *Virtual
	n uint64
}

func (s *deepLog) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out, err := s.LogStore.BatchGet(keys)
	if err != nil {
		return nil, err
	}
	for _, id := range keys {
		if _, ok := out[id]; !ok {
			if raw := s.v.chunk(id, s.n); raw != nil {
				out[id] = raw
			}
		}
	}
	return out, nil
}

// chunk is what a log of n entries stores for a chunk of its tree: the values
// of the full subtrees three levels below its root.
func (v *Virtual) chunk(id, n uint64) []byte {
	level := bits.TrailingZeros64(^id)
	if level%4 != 3 {
		return nil
	}
	h := level - 3
	lo := id >> 1 &^ (1<<level - 1)
	var out []byte
	for i := uint64(0); i < 8; i++ {
		if x := lo + i<<h; x < n && n-x >= 1<<h {
			out = append(out, v.subtree(x, h)...)
		}
	}
	return out
}

type deepPrefix struct {
	db.PrefixStore
	v *Virtual
	n uint64
}

func tileKey(ver, ctr uint64) string { return fmt.Sprintf("%x:%x", ver, ctr) }

// real is the key something is stored under. All log entries of an epoch have
// the same prefix tree.
func (s *deepPrefix) real(key string) string {
	var ver, ctr uint64
	if n, err := fmt.Sscanf(key, "%x:%x", &ver, &ctr); n == 2 && err == nil && ctr == 0 && ver > 0 && ver <= s.n {
		return tileKey(s.v.epoch(ver-1).from+1, 0)
	}
	return key
}

func (s *deepPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	var in []string
	for _, key := range keys {
		in = append(in, s.real(key))
	}
	found, err := s.PrefixStore.BatchGet(in)
	if err != nil {
		return nil, err
	}
	out := make(map[string][]byte)
	for i, key := range keys {
		if raw, ok := found[in[i]]; ok {
			out[key] = raw
		}
	}
	return out, nil
}

// deepFits tells whether this is how katie stores things.
func deepFits(v *Virtual) bool {
	n := uint64(v.r.Range(1, 300))
	mem := memory.NewLogStore()
	tree := log.NewTree(v.w.cs, mem)
	small := &Virtual{k: v.k, r: v.r, w: v.w}
	for i := uint64(0); i < n; i++ {
		e := &vEpoch{from: i, ts: i, root: v.r.Bytes(32)}
		e.hash = [][]byte{refLeaf(e.ts, e.root)}
		small.epochs = append(small.epochs, e)
		if _, err := tree.Append(i, e.hash[0]); err != nil {
			return false
		}
	}
	for id, raw := range mem.Data {
		if !bytes.Equal(raw, small.chunk(id, n)) {
			return false
		}
	}
	for lo := uint64(0); lo < n; lo += 8 {
		if _, ok := mem.Data[2*lo+7]; !ok {
			return false
		}
	}
	p := memory.NewPrefixStore()
	ver := v.r.Uint64() >> 2
	if ver > 0 {
		// An empty tree.
		if _, _, _, err := prefix.NewTree(v.w.cs, p).Mutate(0, nil, nil); err != nil || len(p.Data) != 1 {
			return false
		}
		raw := p.Data[tileKey(1, 0)]
		if raw == nil {
			return false
		}
		p.Data = map[string][]byte{tileKey(ver, 0): raw}
		if _, _, _, err := prefix.NewTree(v.w.cs, p).Mutate(ver, nil, nil); err != nil || p.Data[tileKey(ver+1, 0)] == nil {
			return false
		}
	}
	return true
}

// Deep is a real server over a virtual log, and a model of what it contains.
// The world's list of log entries is not used.
type Deep struct {
	*Virtual
	store   *deepStore
	content []pEntry
	slow    bool   // the clock hardly moves
	scrap   []byte // a label nobody searches for
	last    *structs.AuditorUpdate

	aud      *auditor.Auditor
	audStore *auditorStore
}

// genDeep makes a deep log. No label has more than maxVer versions. It returns
// nil if katie stores things in a way that isn't known here.
func genDeep(k *Case, cfg WorldCfg, maxVer int) *Deep {
	r := k.R
	cfg.Start = 0
	maxN := uint64(1) << uint(r.Range(3, 63))
	if r.P(0.3) {
		maxN = uint64(r.Range(20, 100_000))
	}
	maxN = min(maxN, logmath.MaxTreeSize-200)
	spots := map[uint64]bool{0: true}
	for i := r.Range(2, 20); i > 0; i-- {
		var x uint64
		switch r.Intn(4) {
		case 0:
			x = uint64(1)<<uint(r.Intn(63)) + uint64(r.Intn(4))
		case 1:
			x = maxN - 1 - min(maxN-1, uint64(r.Intn(6)))
		case 2:
			x = uint64(r.Int63n(int64(maxN)))
		case 3:
			x = maxN/8*uint64(r.Intn(9)) + uint64(r.Intn(3))
			x -= min(x, 1)
		}
		if x < maxN {
			spots[x] = true
		}
	}
	names := [][]byte{[]byte("deep"), []byte("other"), []byte("scrap")}
	limit := []int64{int64(r.Range(0, maxVer)), int64(r.Intn(6)), int64(r.Intn(40))}
	cur := []int64{-1, -1, -1}
	var epochs []*vEpoch
	var ts uint64
	slow := r.P(0.3)
	for i, from := range sortedPos(spots) {
		if !slow || r.P(0.1) {
			ts += pick(r, 0, 1, cfg.RMW/4, cfg.RMW/2, cfg.RMW-1, cfg.RMW, cfg.RMW+1, 3*cfg.RMW)
		}
		e := &vEpoch{from: from, ts: ts, set: make(map[string]int64)}
		for j, l := range names {
			if i > 0 && cur[j] < limit[j] && r.P(0.6) {
				cur[j] += pick(r, 1, 1+r.Int63n(limit[j]-cur[j]), (limit[j]-cur[j]+1)/2)
			}
			e.set[string(l)] = cur[j]
		}
		epochs = append(epochs, e)
	}
	v := newVirtual(k, cfg, epochs, nil)
	if !deepFits(v) {
		return nil
	}
	d := &Deep{Virtual: v, scrap: names[2], slow: slow}
	v.publish(min(maxN, max(v.someSize(), epochs[len(epochs)-1].from+1)))

	// The newest epoch has to be part of the log.
	mem := memory.NewTransparencyStore()
	d.store = &deepStore{mem, v, v.n}
	tree := prefix.NewTree(v.w.cs, &deepPrefix{mem.PrefixStore(), v, v.n})
	had := []int64{-1, -1, -1}
	for _, e := range epochs {
		var add []prefix.Entry
		for j, l := range names {
			for had[j] < e.set[string(l)] {
				had[j]++
				x := v.version(l, uint32(had[j]))
				add = append(add, prefix.Entry{VrfOutput: x.vrf, Commitment: x.com})
				d.content = append(d.content, pEntry{x.vrf, x.com})
				check(mem.PutVersion(l, uint32(had[j]), mustMarshal(x.oav)))
				v.w.cur[string(l)] = append(v.w.cur[string(l)], Ver{Value: x.oav.Value.Value, Sig: x.oav.Value.Signature, Pos: e.from})
			}
		}
		sort.Slice(add, func(i, j int) bool { return bytes.Compare(add[i].VrfOutput, add[j].VrfOutput) < 0 })
		root := must2(tree.Mutate(e.from, add, nil))
		e.root, e.hash = root, [][]byte{refLeaf(e.ts, root)}
	}
	k.Assert(bytes.Equal(epochs[len(epochs)-1].root, refPrefixRoot(d.content)), "prefix tree of %d entries has a wrong root", len(d.content))
	// Nobody can search for versions that don't exist in the virtual log any more.
	v.tree, v.wanted = nil, nil
	w := v.w
	w.deep = d
	w.names = names[:2]
	w.store = d.store
	for _, l := range names {
		w.putIndex(l, w.index(l))
	}
	check(mem.PutTreeHead(mustMarshal(w.signHead(v.n, v.root(v.n)))))
	d.publishHead()
	k.Logf("deep log of %d entries and %d versions: %v", v.n, len(d.content), cfg)
	return d
}

func must2(root []byte, _ *prefix.PrefixProof, _ [][]byte, err error) []byte {
	check(err)
	return root
}

// publishHead publishes a tree head of the auditor, if any, and restarts the
// server.
func (d *Deep) publishHead() {
	if d.w.cfg.Mode == structs.ThirdPartyAuditing {
		d.audN = max(d.audN, d.n-min(d.n-1, uint64(d.r.Intn(3))))
		check(d.store.PutAuditorTreeHead(mustMarshal(d.w.signAuditorHead(d.epoch(d.audN-1).ts, d.audN, d.root(d.audN), d.w.audKey))))
	}
	check(d.store.Commit())
	d.w.reload()
}

// mutate adds a log entry through the real server, and checks that it is as it
// should be.
func (d *Deep) mutate(adds []Add, removeScrap bool) {
	k, w, n := d.k, d.w, d.n
	next := make(map[string][]Ver)
	for l, vs := range w.cur {
		next[l] = vs
	}
	var removes [][]byte
	if removeScrap && len(next[string(d.scrap)]) > 0 {
		removes = append(removes, d.scrap)
		gone := make(map[string]bool)
		for i := range next[string(d.scrap)] {
			gone[string(d.version(d.scrap, uint32(i)).vrf)] = true
		}
		var left []pEntry
		for _, e := range d.content {
			if !gone[string(e.vrf)] {
				left = append(left, e)
			}
		}
		d.content = left
		delete(next, string(d.scrap))
		delete(d.vers, string(d.scrap))
	}
	var in []transparency.LabelValue
	var fresh []vKey
	for _, a := range adds {
		l := string(a.Label)
		ver := uint32(len(next[l]))
		sig := a.Sig
		if sig == nil {
			sig = w.signLeaf(a.Label, ver, a.Value)
		}
		in = append(in, transparency.LabelValue{Label: a.Label, Value: structs.UpdateValue{Value: a.Value, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}})
		vs := next[l]
		next[l] = append(vs[:len(vs):len(vs)], Ver{a.Value, sig, n})
		fresh = append(fresh, vKey{a.Label, ver})
	}
	w.use()
	update, err := w.tree.Mutate(in, removes)
	if err != nil {
		k.Fail("adding %d versions and removing %d labels in log entry %d failed: %v", len(in), len(removes), n, err)
	}
	d.last = update
	w.cur = next
	for _, f := range fresh {
		oav := w.stored(f.label, f.ver)
		if oav == nil {
			k.Fail("version %d of %q was not stored with log entry %d", f.ver, f.label, n)
		}
		k.Assert(bytes.Equal(oav.Value.Value, next[string(f.label)][f.ver].Value), "version %d of %q was stored with another value", f.ver, f.label)
		x := &vVersion{oav: oav, com: w.commit(f.label, f.ver, oav)}
		x.vrf, x.proof = w.vrfOf(f.label, f.ver)
		if d.vers[string(f.label)] == nil {
			d.vers[string(f.label)] = make(map[uint32]*vVersion)
		}
		d.vers[string(f.label)][f.ver] = x
		d.content = append(d.content, pEntry{x.vrf, x.com})
	}
	e := &vEpoch{from: n, ts: w.now, root: refPrefixRoot(d.content), set: make(map[string]int64)}
	e.hash = [][]byte{refLeaf(e.ts, e.root)}
	for l, vs := range next {
		e.set[l] = int64(len(vs)) - 1
		k.Assert(equalU64(d.indexOf([]byte(l)), w.index([]byte(l))), "the versions of %q are recorded to have been created in log entries %s, they were in %s", l, lastOf(d.indexOf([]byte(l))), lastOf(w.index([]byte(l))))
	}
	d.epochs = append(d.epochs, e)
	d.n = n + 1
	raw := must(d.store.mem.BatchGet([]uint64{n}))[n]
	k.Assert(bytes.Equal(raw, mustMarshal(&structs.LogEntry{Timestamp: e.ts, PrefixTree: e.root})), "log entry %d is not what it should be after adding %d versions: %x, expected root %x and time %d", n, len(in), raw, e.root, e.ts)
	rawHead, _, err := d.store.GetTreeHead()
	check(err)
	head := must(structs.NewTreeHead(bytes.NewBuffer(rawHead)))
	tbs := mustMarshal(&structs.TreeHeadTBS{Config: w.pub, TreeSize: d.n, Root: d.root(d.n)})
	k.Assert(head.TreeSize == d.n && w.priv.SignatureKey.Public().Verify(tbs, head.Signature), "the tree head of %d entries does not verify with the root of the log", d.n)
	k.Logf("entry %d ts=%d +%d -%d", n, e.ts, len(in), len(removes))
	k.Count("entries added to deep logs", 1)
	if d.aud != nil {
		d.audit()
	}
	d.publishHead()
}

type vKey struct {
	label []byte
	ver   uint32
}

func (d *Deep) indexOf(l []byte) []uint64 {
	raw := must(d.store.BatchGetIndex([][]byte{l}))[0]
	var out []uint64
	var pos uint64
	for len(raw) > 0 {
		x, n := binary.Uvarint(raw)
		if n <= 0 {
			return nil
		}
		raw, pos = raw[n:], pos+x
		out = append(out, pos)
	}
	return out
}

func equalU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func lastOf(x []uint64) string {
	if len(x) > 8 {
		return fmt.Sprintf("(%d in all) ...%v", len(x), x[len(x)-8:])
	}
	return fmt.Sprint(x)
}

// tick moves the clock.
func (d *Deep) tick() {
	rmw := d.w.cfg.RMW
	if d.slow && !d.r.P(0.1) {
		return
	}
	d.w.setNow(d.w.now + pick(d.r, 0, 1, rmw/4, rmw/2, rmw-1, rmw, 3*rmw))
}

// removableScrap tells whether the unimportant label may be removed in the
// next log entry.
func (d *Deep) removableScrap() bool {
	vs := d.w.cur[string(d.scrap)]
	if len(vs) == 0 {
		return false
	}
	d.epochs = append(d.epochs, &vEpoch{from: d.n, ts: d.w.now})
	dle := d.prevDLE(d.n + 1)
	d.epochs = d.epochs[:len(d.epochs)-1]
	return int64(vs[len(vs)-1].Pos) <= dle
}

// prevDLE is the rightmost distinguished log entry to the left of the last one
// of n entries, or -1.
func (d *Deep) prevDLE(n uint64) int64 {
	out := int64(-1)
	left, right := uint64(0), d.epoch(n-1).ts
	step := func(x uint64) bool {
		if right-left < d.w.cfg.RMW {
			return false
		}
		out, left = int64(x), d.epoch(x).ts
		return true
	}
	for _, x := range bstFrontier(n) {
		if x != n-1 {
			if !step(x) {
				return out
			}
			continue
		}
		if right-left < d.w.cfg.RMW {
			return out
		}
		// The last entry is distinguished itself. What is to its left?
		for h := bits.TrailingZeros64(^x); h > 0; h-- {
			if h == bits.TrailingZeros64(^(n - 1)) {
				x -= 1 << (h - 1)
			} else {
				x += 1 << (h - 1)
			}
			if !step(x) {
				break
			}
		}
	}
	return out
}

// leap makes the log grow a lot without any changes to its content.
func (d *Deep) leap() {
	if d.n > logmath.MaxTreeSize/2-1 {
		return
	}
	delta := uint64(1) << uint(d.r.Intn(62))
	delta += uint64(d.r.Intn(5)) - min(delta, 2)
	if d.r.P(0.3) {
		delta = uint64(d.r.Intn(1000))
	}
	d.n = min(d.n+delta, logmath.MaxTreeSize-200)
	d.rebase()
	d.k.Logf("leap to %d entries", d.n)
}

// rebase makes everything that is in the log up to now be computed when it is
// read.
func (d *Deep) rebase() {
	d.store.n = d.n
	clear(d.store.mem.LogEntries)
	clearLogStore(d.store.mem)
	check(d.store.PutTreeHead(mustMarshal(d.w.signHead(d.n, d.root(d.n)))))
	d.publishHead()
}

// startAuditor makes an auditor that knows the log as it is.
func (d *Deep) startAuditor() {
	st := auditor.AuditorState{TreeHead: *d.w.signAuditorHead(d.epoch(d.n-1).ts, d.n, d.root(d.n), d.w.audKey), PrefixTree: d.epoch(d.n - 1).root}
	st.FullSubtrees, _ = d.fullSubtrees(d.n)
	for _, x := range bstFrontier(d.n) {
		st.Timestamps = append(st.Timestamps, d.epoch(x).ts)
	}
	dle := d.rightmostDLE(d.n)
	for l, vs := range d.w.cur {
		for i, x := range vs {
			if int64(x.Pos) > dle {
				st.Inserted = append(st.Inserted, auditor.InsertedVrfOutput{Pos: x.Pos, VrfOutput: d.version([]byte(l), uint32(i)).vrf})
			}
		}
	}
	sort.Slice(st.Inserted, func(i, j int) bool { return bytes.Compare(st.Inserted[i].VrfOutput, st.Inserted[j].VrfOutput) < 0 })
	d.audStore = &auditorStore{state: must(st.Marshal())}
	d.aud = newAuditor(d.k, d.w.pub, d.w.audKey, d.audStore)
}

// audit shows the most recent mutation to the auditor.
func (d *Deep) audit() {
	k := d.k
	raw, err := structs.Marshal(d.last)
	if err != nil {
		k.Fail("update of the auditor for log entry %d can't be encoded: %v", d.n-1, err)
	}
	if err := d.aud.Process(wireUpdate(k, d.w.cs, raw)); err != nil {
		k.Fail("auditor rejects honest log entry %d with %d additions and %d removals: %v", d.n-1, len(d.last.Added), len(d.last.Removed), err)
	}
	k.Count("log entries audited in deep logs", 1)
	if !d.r.P(0.7) {
		return
	}
	head, err := d.aud.Commit()
	if err != nil {
		k.Fail("auditor can't sign the tree of %d entries: %v", d.n, err)
	}
	e := d.epoch(d.n - 1)
	tbs := mustMarshal(&structs.AuditorTreeHeadTBS{Config: d.w.pub, Timestamp: e.ts, TreeSize: d.n, Root: d.root(d.n)})
	k.Assert(head.TreeSize == d.n && head.Timestamp == e.ts && d.w.pub.AuditorPublicKey.Verify(tbs, head.Signature), "auditor signs another tree than that of %d entries", d.n)
	k.Eval("deep audit/%d/%d/%d", d.n, len(d.last.Added), len(d.last.Removed))
	if d.r.P(0.3) {
		d.aud = newAuditor(k, d.w.pub, d.w.audKey, d.audStore)
	}
}

// grow adds a random log entry.
func (d *Deep) grow() {
	d.tick()
	var adds []Add
	for _, l := range [][]byte{d.w.names[0], d.w.names[1], d.scrap} {
		if d.r.P(0.5) {
			for i := pick(d.r, 1, 1, 2, 5, 20); i > 0; i-- {
				adds = append(adds, Add{Label: l, Value: d.w.newValue()})
			}
		}
	}
	d.r.Shuffle(len(adds), func(i, j int) { adds[i], adds[j] = adds[j], adds[i] })
	d.mutate(adds, d.mayRemove(adds) && d.r.P(0.5))
	if d.aud == nil && d.r.P(0.3) {
		d.leap()
	} else if d.aud != nil && d.r.P(0.1) {
		d.leap()
		d.startAuditor()
	}
}

// mayRemove tells whether the unimportant label may be removed along with the
// additions.
func (d *Deep) mayRemove(adds []Add) bool {
	if !d.removableScrap() {
		return false
	}
	if d.aud == nil {
		return true
	}
	// See the known findings.
	return len(d.w.cur[string(d.scrap)]) < 150 && !d.w.collapsing(adds, [][]byte{d.scrap})
}

func (d *Deep) sequencer(req transparency.UpdateRequest) (uint64, bool) {
	pos := d.n
	d.mutate(d.w.reqAdds(req), false)
	return pos, true
}

// pos is where a version was created.
func (d *Deep) pos(l []byte) func(ver uint32) (uint64, bool) {
	return func(ver uint32) (uint64, bool) {
		if vs := d.w.cur[string(l)]; int64(ver) < int64(len(vs)) {
			return vs[ver].Pos, true
		}
		return 0, false
	}
}

func (d *Deep) at(l []byte, x uint64) int64 {
	out := int64(-1)
	for i, v := range d.w.cur[string(l)] {
		if v.Pos <= x {
			out = int64(i)
		}
	}
	return out
}

// deepClient is a client of a deep log.
type deepClient struct {
	d    *Deep
	cl   *Client
	v    *vClient
	duty duties
}

func (d *Deep) newClient() *deepClient {
	c := &deepClient{d: d, cl: d.w.newClient(), duty: make(duties)}
	c.v = &vClient{d.Virtual, c.cl}
	return c
}

func (c *deepClient) dle() int64 {
	if c.cl.size() == 0 {
		return -1
	}
	return c.d.rightmostDLE(c.cl.size())
}

// search searches for some version and checks the answer.
func (c *deepClient) search(l []byte) {
	d, k, r := c.d, c.d.k, c.d.r
	vs := d.w.cur[string(l)]
	o := op{kind: "greatest", label: l}
	target := len(vs) - 1
	if r.P(0.6) {
		target = r.Intn(len(vs) + 2)
		if r.P(0.3) {
			target = max(0, len(vs)-1-r.Intn(5))
		}
		o.kind, o.ver = "fixed", uint32(target)
	}
	m := c.cl.size()
	res := c.cl.do(o, d.w, tamper{})
	if target < 0 || target >= len(vs) {
		k.Assert(res.srv == nil && isNotFound(res.err), "%s search for version %d of %d in a deep log of %d entries: %v", o.kind, target, len(vs), d.n, res.outcome)
		k.Count("searches for missing versions in deep logs", 1)
		return
	}
	if !res.ok() {
		k.Fail("%s search for version %d of %d in a deep log of %d entries by a client that knows %d: %v", o.kind, target, len(vs), d.n, m, res.outcome)
	}
	x := res.responses[0].(*structs.SearchResponse)
	k.Assert(bytes.Equal(x.Value.Value, vs[target].Value) && (x.Version == nil || int(*x.Version) == target), "search for version %d of %d in a deep log of %d entries gave another value", target, len(vs), d.n)
	c.v.checkState()
	if d.w.cfg.Mode == structs.ContactMonitoring {
		c.duty.learnt(l, vs[target].Pos, uint32(target), c.dle(), d.n)
	}
	c.duty.check(c.cl, l, d.pos(l))
	k.Eval("deep search/%d/%d/%d/%d/%s", d.n, m, len(vs), target, o.kind)
	k.Count("searches in deep logs", 1)
}

// init makes the client the owner of a label.
func (c *deepClient) init(l []byte) {
	d, k := c.d, c.d.k
	dle := c.dle()
	if dle < 0 {
		return
	}
	res := c.cl.do(op{kind: "init", label: l}, d.w, tamper{})
	if !res.ok() {
		k.Fail("initialising an owner at %d in a deep log of %d entries: %v", dle, d.n, res.outcome)
	}
	s := c.cl.Label(l)
	k.Assert(s != nil && s.Owner != nil && s.Owner.Starting == uint64(dle) && int64(s.Owner.VerAtStarting) == d.at(l, uint64(dle)), "wrong owner state at %d of %d", dle, d.n)
	c.v.checkState()
	c.duty.check(c.cl, l, d.pos(l))
	k.Count("initialisations in deep logs", 1)
}

// update creates versions of a label the client owns.
func (c *deepClient) update(l []byte, count int) {
	d, k := c.d, c.d.k
	o := op{kind: "update", label: l}
	for i := 0; i < count; i++ {
		o.values = append(o.values, d.w.newValue())
	}
	before := len(d.w.cur[string(l)])
	m := c.cl.size()
	if count > 0 {
		d.tick()
	}
	res := c.cl.do(o, d.w, tamper{seq: d.sequencer})
	if !res.ok() {
		k.Fail("update of a label with %d versions by %d more in a deep log of %d entries by a client that knows %d: %v", before, count, d.n, m, res.outcome)
	}
	s := c.cl.Label(l).Owner
	vs := d.w.cur[string(l)]
	k.Assert(len(vs) == before+count, "%d of %d versions were created", len(vs)-before, count)
	k.Assert(s.VerAtStarting+len(s.UpcomingVers) == len(vs)-1, "owner knows %d+%d versions after an update, there are %d", s.VerAtStarting+1, len(s.UpcomingVers), len(vs))
	for i, pos := range s.UpcomingVers {
		k.Assert(vs[s.VerAtStarting+1+i].Pos == pos, "owner has a wrong position for version %d", s.VerAtStarting+1+i)
	}
	for _, x := range res.responses {
		pos := x.(*structs.UpdateResponse).Position
		c.duty.learnt(l, pos, uint32(d.at(l, pos)), c.dle(), 0)
	}
	c.v.checkState()
	c.duty.check(c.cl, l, d.pos(l))
	k.Eval("deep update/%d/%d/%d/%d", d.n, m, before, count)
	k.Count("updates in deep logs", 1)
}

// monitor performs a round of monitoring.
func (c *deepClient) monitor() {
	d, k := c.d, c.d.k
	m := c.cl.size()
	if m == 0 || c.dle() < 0 {
		return
	}
	old := c.cl.clone()
	req, out := c.cl.Monitor()
	if !out.ok() {
		k.Fail("monitoring in a deep log of %d entries by a client that knows %d, request %+v: %v", d.n, m, req, out)
	}
	if req == nil {
		return
	}
	c.v.checkState()
	var l []byte
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		l = req.Label
	case *structs.OwnerMonitorRequest:
		l = req.Label
		s0, s1 := old.Label(l).Owner, c.cl.Label(l).Owner
		k.Assert(s1.Starting >= s0.Starting && int64(s1.VerAtStarting) == d.at(l, s1.Starting), "owner who monitored from %d to %d has version %d there, it is %d", s0.Starting, s1.Starting, s1.VerAtStarting, d.at(l, s1.Starting))
		k.Assert(s0.VerAtStarting+len(s0.UpcomingVers) == s1.VerAtStarting+len(s1.UpcomingVers), "owner monitoring has changed which versions the owner knows")
		if s1.Starting > s0.Starting {
			k.Count("rounds that advance in deep logs", 1)
		}
	}
	c.duty.monitored(l, c.dle(), c.cl.size())
	c.duty.stopped(c.cl, l, c.dle())
	c.duty.check(c.cl, l, d.pos(l))
	k.Eval("deep monitor/%d/%d/%T", d.n, m, req)
	k.Count("rounds of monitoring in deep logs", 1)
}

// propose makes up a mutation of the prefix tree that may be illegitimate
// because it removes something too early, and shows it to an auditor that is
// thrown away afterwards.
func (d *Deep) propose() {
	k, r := d.k, d.r
	if _, err := d.aud.Commit(); err != nil {
		k.Fail("auditor can't sign the tree of %d entries: %v", d.n, err)
	}
	now := d.epoch(d.n - 1).ts
	u := &structs.AuditorUpdate{Timestamp: now + pick(r, 0, 1, d.w.cfg.RMW/2, d.w.cfg.RMW-1, d.w.cfg.RMW, 2*d.w.cfg.RMW)}
	d.epochs = append(d.epochs, &vEpoch{from: d.n, ts: u.Timestamp})
	dle := d.prevDLE(d.n + 1)
	d.epochs = d.epochs[:len(d.epochs)-1]
	type item struct {
		vKey
		pos uint64
	}
	var all []item
	set := make(map[string][]byte)
	for _, l := range sortedKeys(d.w.cur) {
		for i, x := range d.w.cur[l] {
			all = append(all, item{vKey{[]byte(l), uint32(i)}, x.Pos})
			v := d.version([]byte(l), uint32(i))
			set[string(v.vrf)] = v.com
		}
	}
	var early []item
	for i := r.Intn(4); i > 0 && len(all) > 0; i-- {
		// Mostly what was inserted close to the limit.
		j := r.Intn(len(all))
		for t := 0; t < 3; t++ {
			if o := r.Intn(len(all)); all[o].pos > all[j].pos {
				j = o
			}
		}
		x := all[j]
		all = append(all[:j:j], all[j+1:]...)
		v := d.version(x.label, x.ver)
		u.Removed = append(u.Removed, prefix.Entry{VrfOutput: v.vrf, Commitment: v.com})
		if int64(x.pos) > dle {
			early = append(early, x)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		u.Added = append(u.Added, prefix.Entry{VrfOutput: r.Bytes(32), Commitment: r.Bytes(32)})
	}
	sortEntries(u.Added)
	sortEntries(u.Removed)
	vrfs := append(vrfsOf(u.Added), vrfsOf(u.Removed)...)
	collapse := collapses(set, vrfsOf(u.Added), vrfsOf(u.Removed))
	res := must(prefix.NewTree(d.w.cs, d.store.PrefixStore()).Search([]prefix.PrefixSearch{{Version: d.n, VrfOutputs: vrfs}}))
	u.Proof = res[0].Proof
	feed := func(u *structs.AuditorUpdate) error {
		a := newAuditor(k, d.w.pub, d.w.audKey, &auditorStore{state: bytes.Clone(d.audStore.state)})
		return a.Process(wireUpdate(k, d.w.cs, mustMarshal(u)))
	}
	err := feed(u)
	if len(early) > 0 {
		k.Assert(err != nil, "auditor accepts that version %d of %q, which was added in log entry %d, is removed in %d, where the previous distinguished log entry is %d", early[0].ver, early[0].label, early[0].pos, d.n, dle)
		k.Count("early removals proposed in deep logs", 1)
	} else if !collapse {
		if err != nil {
			k.Fail("auditor rejects %d additions and %d removals in log entry %d although all are from %d or before: %v", len(u.Added), len(u.Removed), d.n, dle, err)
		}
		k.Count("legitimate removals proposed in deep logs", len(u.Removed))
		if now > 0 {
			u.Timestamp = now - 1 - uint64(r.Intn(int(min(now, 5))))
			k.Assert(feed(u) != nil, "auditor accepts the time %d after %d", u.Timestamp, now)
		}
	}
	k.Eval("deep proposal/%d/%d/%d/%d/%d", d.n, dle, len(u.Added), len(u.Removed), len(early))
}

// deepAudit lets a deep log grow under the eyes of an auditor.
func deepAudit(k *Case, rounds int, proposals int) {
	cfg := genCfg(k.R)
	cfg.Mode, cfg.AudGap = structs.ThirdPartyAuditing, 0
	if k.R.P(0.8) {
		cfg.Suite = 2
	}
	d := genDeep(k, cfg, 40)
	if d == nil {
		k.Skip()
	}
	d.startAuditor()
	for i := 0; i < rounds; i++ {
		for j := 0; j < proposals; j++ {
			d.propose()
		}
		d.grow()
		if k.R.P(0.2) {
			d.newClient().search(d.w.names[0])
		}
	}
}

// deepRun lets a deep log grow while clients use it. The chances of the
// operations are given.
func deepRun(k *Case, maxVer, rounds int, search, own, monitor float64) {
	cfg := genCfg(k.R)
	if k.R.P(0.8) {
		cfg.Suite = 2
	}
	d := genDeep(k, cfg, maxVer)
	if d == nil {
		k.Skip()
	}
	r := k.R
	var clients []*deepClient
	for i := 0; i < rounds; i++ {
		if r.P(0.6) {
			d.grow()
		}
		if len(clients) == 0 || len(clients) < 4 && r.P(0.3) {
			clients = append(clients, d.newClient())
		}
		c := clients[r.Intn(len(clients))]
		l := d.w.names[min(r.Intn(3), 1)^1]
		owns := c.cl.Label(l) != nil && c.cl.Label(l).Owner != nil
		if r.P(search) || c.cl.size() == 0 {
			c.search(l)
		}
		if r.P(own) && c.cl.size() > 0 {
			if owns {
				c.update(l, pick(r, 0, 1, 1, 3, 20))
			} else {
				c.init(l)
			}
		}
		for j := 0; j < 3; j++ {
			if r.P(monitor) {
				c.monitor()
			}
		}
	}
}
