package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

// vnow is the virtual clock that katie reads.
var vnow atomic.Uint64

func init() { algorithms.Clock = func() uint64 { return vnow.Load() } }

var modeNames = map[structs.DeploymentMode]string{
	structs.ContactMonitoring: "CM", structs.ThirdPartyManagement: "TPM", structs.ThirdPartyAuditing: "TPA",
}

func suiteByID(id int) suites.CipherSuite {
	if id == 1 {
		return suites.KTSha256P256{}
	}
	return suites.KTSha256Ed25519{}
}

// WorldCfg are the parameters of a simulated deployment.
type WorldCfg struct {
	Suite  int
	Mode   structs.DeploymentMode
	RMW    uint64
	Life   uint64
	Ahead  uint64
	Behind uint64
	Lag    uint64 // MaxAuditorLag
	AudPos uint64 // AuditorStartPos
	Start  uint64 // time of the beginning
	AudGap int    // how many entries the auditor head lags behind
}

func (c WorldCfg) String() string {
	return fmt.Sprintf("suite=%d mode=%s rmw=%d life=%d start=%d audgap=%d", c.Suite, modeNames[c.Mode], c.RMW, c.Life, c.Start, c.AudGap)
}

const huge = uint64(1) << 50

// genCfg picks the parameters of a world. P256 is much slower than Ed25519, so
// it is picked less often.
func genCfg(r *Rand) WorldCfg {
	c := WorldCfg{
		Suite: pick(r, 1, 2, 2), Mode: pick(r, structs.ContactMonitoring, structs.ContactMonitoring, structs.ThirdPartyManagement, structs.ThirdPartyAuditing),
		RMW: pick(r, uint64(100), 100, 100, 1, 10, 1000), Ahead: huge, Behind: huge, Lag: huge,
		Start: pick(r, uint64(1_700_000_000_000), 1_700_000_000_000, 0, 30, 90),
	}
	if c.Mode == structs.ThirdPartyAuditing {
		c.AudGap = pick(r, 0, 0, 1, 2, 5)
	}
	return c
}

// Ver is a version of a label.
type Ver struct {
	Value, Sig []byte
	Pos        uint64
}

// Entry is a log entry as the model knows it.
type Entry struct {
	Ts      uint64
	Root    []byte
	Labels  map[string][]Ver // the whole content of the log at this entry
	Update  []byte           // encoded AuditorUpdate
	Removed []string
	Added   map[string]int
}

// World is a simulated deployment: the real server code over a store, and a
// model of what it must contain.
type World struct {
	k       *Case
	r       *Rand
	cfg     WorldCfg
	now     uint64
	cs      suites.CipherSuite
	priv    structs.PrivateConfig
	pub     *structs.PublicConfig
	leafKey suites.SigningPrivateKey
	audKey  suites.SigningPrivateKey
	store   db.TransparencyStore
	tree    *transparency.Tree
	updates chan transparency.UpdateRequest
	hist    []Entry
	cur     map[string][]Ver
	names   [][]byte
	valueNo int
	audSize uint64 // size of the published auditor head

	deep          *Deep                                   // what the world is, instead of hist
	genValue      func() []byte                           // makes values
	noClock       bool                                    // somebody else sets the clock
	beforePublish func()                                  // called when a mutation has returned
	headFor       func(w *World) *structs.AuditorTreeHead // makes the auditor's tree heads
}

func must[T any](x T, err error) T {
	check(err)
	return x
}

// check is used for operations of katie that every check relies on, and for
// operations of the operating system. Only a failure of the former refutes
// anything.
func check(err error) {
	if err == nil {
		return
	}
	var pe *os.PathError
	var se *os.SyscallError
	var le *os.LinkError
	if errors.As(err, &pe) || errors.As(err, &se) || errors.As(err, &le) {
		panic(fmt.Sprintf("harness: %v", err))
	}
	where := ""
	for i := 1; i < 8; i++ {
		_, file, line, ok := runtime.Caller(i)
		if ok {
			where += fmt.Sprintf(" %s:%d", filepath.Base(file), line)
		}
	}
	panic(caseFailed{fmt.Sprintf("an operation that has to succeed on honest input failed: %v (at%s)", err, where)})
}

func mustMarshal(x structs.Marshaller) []byte { return must(structs.Marshal(x)) }

func genSigningKey(r *Rand, cs suites.CipherSuite) suites.SigningPrivateKey {
	return must(cs.ParseSigningPrivateKey(keyBytes(r)))
}

// keyBytes returns 32 bytes that are a valid P-256 scalar and Ed25519 seed.
func keyBytes(r *Rand) []byte {
	b := r.Bytes(32)
	b[0] &= 0x7f
	return b
}

func newWorld(k *Case, cfg WorldCfg) *World {
	return newWorldStore(k, cfg, memory.NewTransparencyStore())
}

func newWorldStore(k *Case, cfg WorldCfg, store db.TransparencyStore) *World {
	r := k.R
	cs := suiteByID(cfg.Suite)
	w := &World{k: k, r: r, cfg: cfg, cs: cs, store: store, cur: make(map[string][]Ver)}
	c := structs.Config{
		Suite: cs, Mode: cfg.Mode, MaxAhead: cfg.Ahead, MaxBehind: cfg.Behind,
		ReasonableMonitoringWindow: cfg.RMW, MaximumLifetime: cfg.Life,
	}
	w.priv = structs.PrivateConfig{SignatureKey: genSigningKey(r, cs), VrfKey: must(cs.ParseVRFPrivateKey(keyBytes(r))), Config: c}
	switch cfg.Mode {
	case structs.ThirdPartyManagement:
		w.leafKey = genSigningKey(r, cs)
		w.priv.LeafPublicKey = w.leafKey.Public()
	case structs.ThirdPartyAuditing:
		w.audKey = genSigningKey(r, cs)
		w.priv.AuditorPublicKey = w.audKey.Public()
		w.priv.MaxAuditorLag = cfg.Lag
		w.priv.AuditorStartPos = cfg.AudPos
	}
	w.pub = w.priv.Public()
	w.updates = make(chan transparency.UpdateRequest)
	w.setNow(cfg.Start)
	w.reload()
	w.names = genNames(r)
	k.Logf("world %v", cfg)
	return w
}

func genNames(r *Rand) [][]byte {
	n := r.Range(2, 6)
	var out [][]byte
	empty := false
	for i := 0; i < n; i++ {
		switch {
		case r.P(0.08) && !empty:
			empty = true
			out = append(out, []byte{})
		case r.P(0.08):
			out = append(out, bytes.Repeat([]byte{byte('A' + i)}, 255))
		case r.P(0.1):
			out = append(out, append([]byte{0, 0xff, ':'}, byte(i)))
		case r.P(0.2):
			out = append(out, []byte(strings.Repeat("a", i+1))) // prefixes of each other
		default:
			out = append(out, []byte(fmt.Sprintf("label%d", i)))
		}
	}
	return out
}

func (w *World) setNow(t uint64) { w.now = t; vnow.Store(t) }

// use makes this world's time current. Needed when several worlds exist.
func (w *World) use() {
	if !w.noClock {
		vnow.Store(w.now)
	}
}

func (w *World) reload() {
	w.tree = must(transparency.NewTree(w.priv, w.store, w.updates))
}

func (w *World) n() uint64 {
	if w.deep != nil {
		return w.deep.n
	}
	return uint64(len(w.hist))
}

func (w *World) ts() []uint64 {
	out := make([]uint64, len(w.hist))
	for i := range w.hist {
		out[i] = w.hist[i].Ts
	}
	return out
}

func (w *World) leaves(n uint64) [][]byte {
	out := make([][]byte, n)
	for i := range out {
		out[i] = refLeaf(w.hist[i].Ts, w.hist[i].Root)
	}
	return out
}

// advance moves the clock by a distance that is interesting relative to the
// reasonable monitoring window.
func (w *World) advance() {
	rmw := w.cfg.RMW
	var d uint64
	switch w.r.Intn(8) {
	case 0:
		d = 0
	case 1:
		d = 1
	case 2, 3:
		d = uint64(w.r.Intn(int(rmw/4 + 1)))
	case 4:
		d = rmw / 2
	case 5:
		d = rmw - min(rmw, 2) + uint64(w.r.Intn(4))
	case 6:
		d = rmw + uint64(w.r.Intn(int(rmw+1)))
	case 7:
		d = 3 * rmw
	}
	w.setNow(w.now + d)
}

func (w *World) newValue() []byte {
	if w.genValue != nil {
		return w.genValue()
	}
	w.valueNo++
	switch {
	case w.r.P(0.05):
		return []byte{}
	case w.r.P(0.05):
		return bytes.Repeat([]byte{byte(w.valueNo)}, w.r.Range(200, 3000))
	case w.r.P(0.05):
		return []byte("same")
	}
	return []byte(fmt.Sprintf("value-%d", w.valueNo))
}

// Add is a new version to be created.
type Add struct {
	Label []byte
	Value []byte
	Sig   []byte // used instead of a correct signature if not nil
}

func (w *World) signLeaf(label []byte, ver uint32, value []byte) []byte {
	if w.cfg.Mode != structs.ThirdPartyManagement {
		return nil
	}
	tbs := mustMarshal(&structs.UpdateTBS{Config: w.pub, Label: label, Version: ver, Value: value})
	return must(w.leafKey.Sign(tbs))
}

// Mutate adds a log entry through the real server.
func (w *World) Mutate(adds []Add, removes [][]byte) error {
	removed := make(map[string]bool)
	for _, l := range removes {
		removed[string(l)] = true
	}
	next := make(map[string][]Ver, len(w.cur))
	for l, v := range w.cur {
		next[l] = v
	}
	var rm []string
	for l := range removed {
		if len(next[l]) > 0 {
			rm = append(rm, l)
		}
		delete(next, l)
	}
	sort.Strings(rm)
	n := w.n()
	in := make([]transparency.LabelValue, len(adds))
	added := make(map[string]int)
	for i, a := range adds {
		l := string(a.Label)
		sig := a.Sig
		if sig == nil {
			sig = w.signLeaf(a.Label, uint32(len(next[l])), a.Value)
		}
		in[i] = transparency.LabelValue{Label: a.Label, Value: structs.UpdateValue{Value: a.Value, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}}
		vs := next[l]
		next[l] = append(vs[:len(vs):len(vs)], Ver{a.Value, sig, n})
		added[l]++
	}
	update, err := w.tree.Mutate(in, removes)
	if err != nil {
		w.k.Logf("mutate +%v -%d labels at %d: error %v", summarize(added), len(removes), w.now, err)
		return err
	}
	w.cur = next
	raw, err := w.store.BatchGet([]uint64{n})
	if err != nil || raw[n] == nil {
		w.k.Fail("log entry %d missing after a successful mutation: %v", n, err)
	}
	le, err := structs.NewLogEntry(w.cs, bytes.NewBuffer(raw[n]))
	if err != nil {
		w.k.Fail("stored log entry %d does not decode: %v", n, err)
	}
	rawUp, err := structs.Marshal(update)
	if err != nil {
		// Updates too large for the wire format exist; only the auditor cares.
		rawUp = nil
	}
	w.hist = append(w.hist, Entry{Ts: le.Timestamp, Root: le.PrefixTree, Labels: next, Update: rawUp, Removed: rm, Added: added})
	w.k.Logf("entry %d ts=%d +%v -%q", n, le.Timestamp, summarize(added), rm)
	if w.beforePublish != nil {
		w.beforePublish()
	}
	if w.cfg.Mode == structs.ThirdPartyAuditing {
		w.publish()
	}
	return nil
}

// MustMutate is Mutate where failing is a violation of what the log promises.
func (w *World) MustMutate(adds []Add, removes [][]byte) {
	if err := w.Mutate(adds, removes); err != nil {
		w.k.Fail("mutation of an honest log failed: %v", err)
	}
}

func summarize(added map[string]int) string {
	var keys []string
	for l := range added {
		keys = append(keys, l)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, l := range keys {
		if len(l) > 10 {
			fmt.Fprintf(&b, "%.10q..x%d ", l, added[l])
		} else {
			fmt.Fprintf(&b, "%qx%d ", l, added[l])
		}
	}
	return b.String()
}

// auditorHead signs an auditor tree head over the first `size` entries, as an
// honest auditor would.
func (w *World) auditorHead(size uint64) *structs.AuditorTreeHead {
	ts := w.hist[size-1].Ts
	return w.signAuditorHead(ts, size, refLogRoot(w.leaves(size)), w.audKey)
}

func (w *World) signAuditorHead(ts, size uint64, root []byte, key suites.SigningPrivateKey) *structs.AuditorTreeHead {
	tbs := mustMarshal(&structs.AuditorTreeHeadTBS{Config: w.pub, Timestamp: ts, TreeSize: size, Root: root})
	return &structs.AuditorTreeHead{Timestamp: ts, TreeSize: size, Signature: must(key.Sign(tbs))}
}

// publish stores the auditor's tree head for the present tree.
func (w *World) publish() {
	if w.headFor != nil {
		w.publishHead(w.headFor(w))
		return
	}
	size := w.n()
	if g := uint64(w.cfg.AudGap); g > 0 && size > g {
		size -= uint64(w.r.Intn(int(g) + 1))
	}
	w.publishSize(max(size, w.audSize))
}

func (w *World) publishSize(size uint64) { w.publishHead(w.auditorHead(size)) }

func (w *World) publishHead(head *structs.AuditorTreeHead) {
	check(w.store.PutAuditorTreeHead(mustMarshal(head)))
	check(w.store.Commit())
	w.audSize = head.TreeSize
	w.reload()
}

// genAdds picks some labels to be updated.
func (w *World) genAdds() []Add {
	var out []Add
	r := w.r
	if r.P(0.15) {
		return nil
	}
	for _, l := range w.names {
		if !r.P(0.45) {
			continue
		}
		c := 1
		if r.P(0.25) {
			c = r.Range(2, 4)
		} else if r.P(0.03) {
			c = r.Range(8, 20)
		}
		for i := 0; i < c; i++ {
			out = append(out, Add{Label: l, Value: w.newValue()})
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// Grow adds up to n log entries after advancing the clock for each.
func (w *World) Grow(n int) {
	for i := 0; i < n; i++ {
		w.advance()
		w.MustMutate(w.genAdds(), nil)
	}
}

// removable returns the labels that may be removed in the next log entry.
func (w *World) removable() [][]byte {
	prev := refPrevDLE(append(w.ts(), w.now), w.cfg.RMW)
	var out [][]byte
	for l, vs := range w.cur {
		if len(vs) > 0 && int(vs[len(vs)-1].Pos) <= prev {
			out = append(out, []byte(l))
		}
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
	return out
}

// vrfOf returns the VRF output and proof of a label-version pair.
func (w *World) vrfOf(label []byte, ver uint32) (out, proof []byte) {
	return w.priv.VrfKey.Prove(mustMarshal(&structs.VrfInput{Label: label, Version: ver}))
}

// stored returns the opening and value of a version as stored by the server.
func (w *World) stored(label []byte, ver uint32) *structs.OpeningAndValue {
	raw := must(w.store.GetVersion(label, ver))
	if raw == nil {
		return nil
	}
	return must(structs.NewOpeningAndValue(w.pub, bytes.NewBuffer(raw)))
}

func (w *World) commit(label []byte, ver uint32, oav *structs.OpeningAndValue) []byte {
	return commitments.Commit(w.cs, oav.Opening, mustMarshal(&structs.CommitmentValue{Label: label, Version: ver, Update: oav.Value}))
}

// treeHead returns what the server signed most recently.
func (w *World) treeHead() *structs.TreeHead { return w.tree.TreeHead() }

func copyMem(s *memory.TransparencyStore) *memory.TransparencyStore {
	out := memory.NewTransparencyStore()
	out.TreeHead = bytes.Clone(s.TreeHead)
	out.Auditor = bytes.Clone(s.Auditor)
	for k, v := range s.Indices {
		out.Indices[k] = v
	}
	for k, v := range s.Versions {
		out.Versions[k] = v
	}
	for k, v := range s.LogEntries {
		out.LogEntries[k] = v
	}
	for k, v := range s.LogStore().(*memory.LogStore).Data {
		out.LogStore().(*memory.LogStore).Data[k] = v
	}
	for k, v := range s.PrefixStore().(*memory.PrefixStore).Data {
		out.PrefixStore().(*memory.PrefixStore).Data[k] = v
	}
	return out
}

func (w *World) mem() *memory.TransparencyStore {
	if w.deep != nil {
		return w.deep.store.mem
	}
	return w.store.(*memory.TransparencyStore)
}

// Clone returns an independent copy of the world, with the same keys.
func (w *World) Clone() *World {
	out := *w
	out.store = copyMem(w.mem())
	out.hist = append([]Entry(nil), w.hist...)
	out.cur = make(map[string][]Ver)
	for l, v := range w.cur {
		out.cur[l] = v
	}
	out.updates = make(chan transparency.UpdateRequest)
	out.reload()
	return &out
}

// evilAppend adds a log entry with arbitrary changes to the prefix tree, signed
// with the real key. The label data in the store stays as it is.
func (w *World) evilAppend(ts uint64, add []prefix.Entry, remove [][]byte) {
	n := w.n()
	sort.Slice(add, func(i, j int) bool { return bytes.Compare(add[i].VrfOutput, add[j].VrfOutput) < 0 })
	root, _, _, err := prefix.NewTree(w.cs, w.store.PrefixStore()).Mutate(n, add, remove)
	check(err)
	w.appendEntry(ts, root)
}

// appendEntry adds a log entry with the given content and signs the tree.
func (w *World) appendEntry(ts uint64, root []byte) {
	n := w.n()
	le := structs.LogEntry{Timestamp: ts, PrefixTree: root}
	check(w.store.Put(n, mustMarshal(&le)))
	subtrees := must(log.NewTree(w.cs, w.store.LogStore()).Append(n, refLeaf(ts, root)))
	w.hist = append(w.hist, Entry{Ts: ts, Root: root, Labels: w.cur})
	_ = subtrees
	head := w.signHead(n+1, refLogRoot(w.leaves(n+1)))
	check(w.store.PutTreeHead(mustMarshal(head)))
	check(w.store.Commit())
	if w.cfg.Mode == structs.ThirdPartyAuditing {
		w.publish()
	}
	w.reload()
	w.k.Logf("forged entry %d ts=%d", n, ts)
}

func (w *World) signHead(size uint64, root []byte) *structs.TreeHead {
	tbs := mustMarshal(&structs.TreeHeadTBS{Config: w.pub, TreeSize: size, Root: root})
	return &structs.TreeHead{TreeSize: size, Signature: must(w.priv.SignatureKey.Sign(tbs))}
}

// putIndex overwrites the positions the server believes a label's versions
// were added in.
func (w *World) putIndex(label []byte, index []uint64) {
	if len(index) == 0 {
		check(w.store.DeleteIndex(label))
		return
	}
	var raw []byte
	prev := uint64(0)
	for _, pos := range index {
		raw = binary.AppendUvarint(raw, pos-prev)
		prev = pos
	}
	check(w.store.PutIndex(label, raw))
}

func (w *World) index(label []byte) []uint64 {
	var out []uint64
	for _, v := range w.cur[string(label)] {
		out = append(out, v.Pos)
	}
	return out
}

// putVersion stores a version with a fresh opening and returns its prefix tree
// entry.
func (w *World) putVersion(label []byte, ver uint32, value []byte) prefix.Entry {
	oav := &structs.OpeningAndValue{Opening: w.r.Bytes(16), Value: structs.UpdateValue{Value: value, UpdateSuffix: structs.UpdateSuffix{Signature: w.signLeaf(label, ver, value)}}}
	check(w.store.PutVersion(label, ver, mustMarshal(oav)))
	vrf, _ := w.vrfOf(label, ver)
	return prefix.Entry{VrfOutput: vrf, Commitment: w.commit(label, ver, oav)}
}

// ---- operations through the wire ----

var errLeftover = errors.New("harness: bytes left over after decoding")

func recode[T structs.Marshaller](x T, dec func(*bytes.Buffer) (T, error)) (T, error) {
	var zero T
	raw, err := structs.Marshal(x)
	if err != nil {
		return zero, fmt.Errorf("encoding: %w", err)
	}
	buf := bytes.NewBuffer(raw)
	out, err := dec(buf)
	if err != nil {
		return zero, fmt.Errorf("decoding: %w", err)
	} else if buf.Len() != 0 {
		return zero, errLeftover
	}
	return out, nil
}

var bg = context.Background()

func (w *World) Search(req *structs.SearchRequest) (*structs.SearchResponse, error) {
	w.use()
	r2, err := recode(req, structs.NewSearchRequest)
	if err != nil {
		return nil, err
	}
	res, err := w.tree.Search(bg, r2)
	if err != nil {
		return nil, err
	}
	return recode(res, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
		return structs.NewSearchResponse(w.pub, r2, b)
	})
}

func (w *World) ContactMonitor(req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	w.use()
	r2, err := recode(req, structs.NewContactMonitorRequest)
	if err != nil {
		return nil, err
	}
	res, err := w.tree.ContactMonitor(bg, r2)
	if err != nil {
		return nil, err
	}
	return recode(res, func(b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(w.pub, b)
	})
}

func (w *World) OwnerInit(req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	w.use()
	r2, err := recode(req, structs.NewOwnerInitRequest)
	if err != nil {
		return nil, err
	}
	res, err := w.tree.OwnerInit(bg, r2)
	if err != nil {
		return nil, err
	}
	return recode(res, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(w.pub, b)
	})
}

func (w *World) OwnerMonitor(req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	w.use()
	r2, err := recode(req, structs.NewOwnerMonitorRequest)
	if err != nil {
		return nil, err
	}
	res, err := w.tree.OwnerMonitor(bg, r2)
	if err != nil {
		return nil, err
	}
	return recode(res, func(b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(w.pub, b)
	})
}

// Sequencer decides what happens to a request to create versions. It returns
// the position, or false to refuse.
type Sequencer func(req transparency.UpdateRequest) (uint64, bool)

// defaultSequencer adds one log entry with the requested versions and,
// sometimes, unrelated ones.
func (w *World) defaultSequencer(req transparency.UpdateRequest) (uint64, bool) {
	w.advance()
	adds := w.reqAdds(req)
	for _, a := range w.genAdds() {
		if !bytes.Equal(a.Label, req.Label) {
			adds = append(adds, a)
		}
	}
	pos := w.n()
	if err := w.Mutate(adds, nil); err != nil {
		w.k.Fail("sequencing failed: %v", err)
	}
	return pos, true
}

func (w *World) reqAdds(req transparency.UpdateRequest) []Add {
	var out []Add
	for _, v := range req.Values {
		a := Add{Label: req.Label, Value: v.Value}
		if w.cfg.Mode == structs.ThirdPartyManagement {
			a.Sig = v.Signature
		}
		out = append(out, a)
	}
	return out
}

// waitLimit bounds how long a stream may stay silent. It is generous; running
// into it is a violation only if katie's goroutine is what does not proceed.
const waitLimit = 60 * time.Second

// runStream collects the responses of an update stream while sequencing the
// requests it makes.
func (w *World) runStream(ch <-chan wire.UpdateResponse, seq Sequencer, each func(i int, res *structs.UpdateResponse) bool) (out []*structs.UpdateResponse, err error) {
	timer := time.NewTimer(waitLimit)
	defer timer.Stop()
	for {
		select {
		case req := <-w.updates:
			pos, ok := seq(req)
			if ok {
				req.Response <- pos
			} else {
				close(req.Response)
			}
		case res, ok := <-ch:
			if !ok {
				return out, nil
			} else if res.Err != nil {
				return out, res.Err
			}
			dec, err := recode(res.Out, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
				return structs.NewUpdateResponse(w.pub, b)
			})
			if err != nil {
				return out, err
			}
			out = append(out, dec)
			if each != nil && !each(len(out)-1, dec) {
				return out, nil
			}
		case <-timer.C:
			w.k.Fail("an update stream neither ended nor produced anything for %v", waitLimit)
		}
	}
}

func (w *World) Update(req *structs.UpdateRequest, seq Sequencer) ([]*structs.UpdateResponse, error) {
	w.use()
	if seq == nil {
		seq = w.defaultSequencer
	}
	r2, err := recode(req, structs.NewUpdateRequest)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ch, err := w.tree.Update(ctx, r2)
	if err != nil {
		return nil, err
	}
	return w.runStream(ch, seq, nil)
}

func (w *World) ManagerUpdate(req *structs.ManagerUpdateRequest, seq Sequencer) ([]*structs.UpdateResponse, error) {
	w.use()
	if seq == nil {
		seq = w.defaultSequencer
	}
	r2, err := recode(req, func(b *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
		return structs.NewManagerUpdateRequest(w.pub, b)
	})
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ch, err := w.tree.ManagerUpdate(ctx, r2)
	if err != nil {
		return nil, err
	}
	return w.runStream(ch, seq, nil)
}

// versions asks the server for every existing version of a label, using an
// update request that creates none.
func (w *World) versions(label []byte) ([]Ver, error) {
	// Versions of the first log entry can't be sent in this way: every owner
	// state is from this entry or a later one, and includes them.
	var out []Ver
	req := &structs.UpdateRequest{Label: label}
	for i, v := range w.cur[string(label)] {
		if v.Pos > 0 {
			break
		}
		req.GreatestVersion = ptr(uint32(i))
		out = append(out, v)
	}
	res, err := w.Update(req, func(transparency.UpdateRequest) (uint64, bool) {
		w.k.Fail("an update request without values was submitted for sequencing")
		return 0, false
	})
	if err != nil {
		return nil, err
	}
	for _, r := range res {
		if len(r.Values) != len(r.Info) {
			return nil, fmt.Errorf("%d values but %d infos", len(r.Values), len(r.Info))
		}
		for i, v := range r.Values {
			out = append(out, Ver{v.Value, r.Info[i].Signature, r.Position})
		}
	}
	return out, nil
}

func scratchDir() string {
	dir := os.Getenv("KCHECK_TMP")
	return must(os.MkdirTemp(dir, "case-"))
}

func ptr[T any](x T) *T { return &x }

// lower is what Mutate does before calling the server.
func (w *World) lower(adds []Add, removes [][]byte) ([]transparency.LabelValue, map[string][]Ver) {
	next := make(map[string][]Ver)
	for l, v := range w.cur {
		next[l] = v
	}
	for _, l := range removes {
		delete(next, string(l))
	}
	var in []transparency.LabelValue
	for _, a := range adds {
		vs := next[string(a.Label)]
		sig := w.signLeaf(a.Label, uint32(len(vs)), a.Value)
		in = append(in, transparency.LabelValue{Label: a.Label, Value: structs.UpdateValue{Value: a.Value, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}})
		next[string(a.Label)] = append(vs[:len(vs):len(vs)], Ver{a.Value, sig, w.n()})
	}
	return in, next
}

func (w *World) adopt(update *structs.AuditorUpdate, adds []Add, removes [][]byte, next map[string][]Ver) {
	n := w.n()
	var rm []string
	for _, l := range removes {
		if len(w.cur[string(l)]) > 0 {
			rm = append(rm, string(l))
		}
	}
	raw := must(w.store.BatchGet([]uint64{n}))
	le := must(structs.NewLogEntry(w.cs, bytes.NewBuffer(raw[n])))
	w.cur = next
	rawUp, err := structs.Marshal(update)
	if err != nil {
		rawUp = nil // too large for the wire
	}
	w.hist = append(w.hist, Entry{Ts: le.Timestamp, Root: le.PrefixTree, Labels: next, Update: rawUp, Removed: rm})
	w.k.Logf("entry %d ts=%d (after a failure that came too late) -%q", n, le.Timestamp, rm)
	if w.cfg.Mode == structs.ThirdPartyAuditing {
		w.publish()
	}
}
