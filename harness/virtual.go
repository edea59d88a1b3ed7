package main

import (
	"bytes"
	"errors"
	"math/bits"
	"sort"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/db/memory"
	logmath "github.com/Bren2010/katie/tree/log/math"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// A virtual log has any number of entries and versions, up to what the formats
// allow, of which only those exist that somebody asks for. It consists of
// epochs, in which all log entries are the same, and its prefix trees contain
// only the versions that are looked up for the greatest versions of the epochs
// and some more.

type vEpoch struct {
	from uint64
	ts   uint64
	set  map[string]int64 // greatest version of every label, if any
	root []byte
	hash [][]byte // values of full subtrees within the epoch, by height
}

type vVersion struct {
	vrf, proof []byte
	oav        *structs.OpeningAndValue
	com        []byte
}

type Virtual struct {
	k      *Case
	r      *Rand
	w      *World // keys and configuration
	epochs []*vEpoch
	names  [][]byte
	wanted map[string][]uint32 // versions that can be looked up, sorted
	vers   map[string]map[uint32]*vVersion
	tree   *prefix.Tree
	n      uint64 // what is published
	audN   uint64
	head   *structs.AuditorTreeHead // shown instead of the one for audN
	page   int                      // how many ladders are sent per round of owner monitoring
}

// ladderOf returns the versions that are looked up for a greatest version.
func ladderOf(t uint32) []uint32 { return math.SearchBinaryLadder(t, t, nil, nil) }

// newVirtual makes a virtual log of the given epochs, of which only the start,
// the time and the greatest versions need to be known. Searches for the extra
// versions are possible, too.
func newVirtual(k *Case, cfg WorldCfg, epochs []*vEpoch, extra []uint32) *Virtual {
	w := newWorld(k, cfg)
	v := &Virtual{k: k, r: k.R, w: w, epochs: epochs, page: k.R.Range(1, 30)}
	v.vers = make(map[string]map[uint32]*vVersion)
	v.wanted = make(map[string][]uint32)
	sets := make(map[string]map[uint32]bool)
	for _, e := range epochs {
		for l, g := range e.set {
			if sets[l] == nil {
				sets[l] = map[uint32]bool{0: true}
				v.vers[l] = make(map[uint32]*vVersion)
				v.names = append(v.names, []byte(l))
				for _, x := range extra {
					for _, y := range ladderOf(x) {
						sets[l][y] = true
					}
				}
			}
			if g >= 0 {
				for _, y := range ladderOf(uint32(g)) {
					sets[l][y] = true
				}
			}
		}
	}
	sort.Slice(v.names, func(i, j int) bool { return bytes.Compare(v.names[i], v.names[j]) < 0 })
	for l, set := range sets {
		for x := range set {
			v.wanted[l] = append(v.wanted[l], x)
		}
		sort.Slice(v.wanted[l], func(i, j int) bool { return v.wanted[l][i] < v.wanted[l][j] })
	}
	v.tree = prefix.NewTree(w.cs, memory.NewPrefixStore())
	had := make(map[string]int64)
	for i, e := range epochs {
		var add []prefix.Entry
		for _, name := range v.names {
			l := string(name)
			g, ok := e.set[l]
			if !ok {
				g = -1
			}
			old, ok := had[l]
			if !ok {
				old = -1
			}
			for _, x := range v.wanted[l] {
				if int64(x) > old && int64(x) <= g {
					add = append(add, prefix.Entry{VrfOutput: v.version(name, x).vrf, Commitment: v.version(name, x).com})
				}
			}
			had[l] = g
		}
		sort.Slice(add, func(i, j int) bool { return bytes.Compare(add[i].VrfOutput, add[j].VrfOutput) < 0 })
		root, _, _, err := v.tree.Mutate(uint64(i), add, nil)
		check(err)
		e.root = root
		e.hash = [][]byte{refLeaf(e.ts, root)}
	}
	return v
}

// version returns a version, whether or not it exists.
func (v *Virtual) version(label []byte, ver uint32) *vVersion {
	if x, ok := v.vers[string(label)][ver]; ok {
		return x
	}
	x := &vVersion{}
	x.vrf, x.proof = v.w.vrfOf(label, ver)
	val := v.w.newValue()
	x.oav = &structs.OpeningAndValue{Opening: v.r.Bytes(16), Value: structs.UpdateValue{Value: val, UpdateSuffix: structs.UpdateSuffix{Signature: v.w.signLeaf(label, ver, val)}}}
	x.com = commitments.Commit(v.w.cs, x.oav.Opening, mustMarshal(&structs.CommitmentValue{Label: label, Version: ver, Update: x.oav.Value}))
	if v.vers[string(label)] == nil {
		v.vers[string(label)] = make(map[uint32]*vVersion)
	}
	v.vers[string(label)][ver] = x
	return x
}

func (v *Virtual) epochIdx(x uint64) int {
	return sort.Search(len(v.epochs), func(i int) bool { return v.epochs[i].from > x }) - 1
}

func (v *Virtual) epoch(x uint64) *vEpoch { return v.epochs[v.epochIdx(x)] }

func (v *Virtual) greatest(label []byte, x uint64) int64 {
	g, ok := v.epoch(x).set[string(label)]
	if !ok {
		return -1
	}
	return g
}

// first returns the log entry a version first exists in.
func (v *Virtual) first(label []byte, ver uint32) (uint64, bool) {
	for _, e := range v.epochs {
		if g, ok := e.set[string(label)]; ok && g >= int64(ver) && e.from < v.n {
			return e.from, true
		}
	}
	return 0, false
}

// publish makes the log have a size. The clock follows.
func (v *Virtual) publish(n uint64) {
	v.n = n
	ts := v.epoch(n - 1).ts
	if ts > v.w.now {
		v.w.setNow(ts)
	}
	if v.w.cfg.Mode == structs.ThirdPartyAuditing {
		v.audN = n - min(n-1, uint64(v.r.Intn(3))*uint64(v.r.Intn(1000)))
	}
	v.k.Logf("virtual log of size %d, auditor at %d", n, v.audN)
}

func (e *vEpoch) full(h int) []byte {
	for len(e.hash) <= h {
		last := e.hash[len(e.hash)-1]
		tag := []byte{1}
		if len(e.hash) == 1 {
			tag = []byte{0}
		}
		e.hash = append(e.hash, sum(tag, last, tag, last))
	}
	return e.hash[h]
}

func tagOf(h int) []byte {
	if h == 0 {
		return []byte{0}
	}
	return []byte{1}
}

// subtree returns the value of the full subtree of height h that starts at lo.
func (v *Virtual) subtree(lo uint64, h int) []byte {
	i := v.epochIdx(lo)
	if h == 0 || i == len(v.epochs)-1 || v.epochs[i+1].from >= lo+1<<h {
		return v.epochs[i].full(h)
	}
	t := tagOf(h - 1)
	return sum(t, v.subtree(lo, h-1), t, v.subtree(lo+1<<(h-1), h-1))
}

func (v *Virtual) fullSubtrees(n uint64) (out [][]byte, hs []int) {
	lo := uint64(0)
	for n > lo {
		h := bits.Len64(n-lo) - 1
		out, hs = append(out, v.subtree(lo, h)), append(hs, h)
		lo += 1 << h
	}
	return
}

func (v *Virtual) root(n uint64) []byte {
	s, hs := v.fullSubtrees(n)
	acc, h := s[len(s)-1], hs[len(s)-1]
	for i := len(s) - 2; i >= 0; i-- {
		acc = sum(tagOf(hs[i]), s[i], tagOf(h), acc)
		h = 1
	}
	return acc
}

// node returns the value of a node of the log tree.
func (v *Virtual) node(id uint64) []byte {
	h := bits.TrailingZeros64(^id)
	return v.subtree(id>>1&^(1<<h-1), h)
}

// vHandle produces proofs.
type vHandle struct {
	v          *Virtual
	label      []byte
	tracker    math.VersionTracker
	timestamps []uint64
	proofs     []vProof
	roots      [][]byte
}

type vProof struct {
	pos  uint64
	vers []uint32
}

func (h *vHandle) Tracker() *math.VersionTracker { return &h.tracker }

func (h *vHandle) GetTimestamp(x uint64) (uint64, error) {
	ts := h.v.epoch(x).ts
	h.timestamps = append(h.timestamps, ts)
	return ts, nil
}

func (h *vHandle) add(x uint64, vers []uint32) []byte {
	h.proofs = append(h.proofs, vProof{x, vers})
	return h.v.epoch(x).root
}

func (h *vHandle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	g := h.v.greatest(h.label, x)
	ladder := []uint32{0}
	if g >= 0 {
		l, r := h.tracker.SearchMaps(x, omit)
		ladder = math.SearchBinaryLadder(ver, uint32(g), l, r)
	}
	h.tracker.AddLadder(x, omit, int(g), ladder)
	res := 0
	if g < int64(ver) {
		res = -1
	} else if g > int64(ver) {
		res = 1
	}
	return h.add(x, ladder), res, nil
}

func (h *vHandle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	return h.add(x, math.MonitoringBinaryLadder(ver)), nil
}

func (h *vHandle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	return h.add(x, append([]uint32(nil), vers...)), nil
}

func (h *vHandle) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	for _, x := range xs {
		h.roots = append(h.roots, h.v.epoch(x).root)
	}
	return h.roots, nil
}

func (h *vHandle) Finish() ([][]byte, error) { return nil, errors.New("unused") }

func (h *vHandle) StopCondition(x uint64, ver int) bool {
	return len(h.proofs) >= h.v.page || h.v.greatest(h.label, x) > int64(ver)
}

func (h *vHandle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	out := &structs.CombinedTreeProof{Timestamps: h.timestamps, PrefixRoots: h.roots}
	for _, p := range h.proofs {
		var vrfs [][]byte
		for _, ver := range p.vers {
			vrfs = append(vrfs, h.v.version(h.label, ver).vrf)
		}
		res, err := h.v.tree.Search([]prefix.PrefixSearch{{Version: uint64(h.v.epochIdx(p.pos) + 1), VrfOutputs: vrfs}})
		if err != nil {
			return nil, err
		}
		out.PrefixProofs = append(out.PrefixProofs, res[0].Proof)
	}
	for _, id := range logmath.BatchCopath(leaves, n, nP, m) {
		out.Inclusion.Elements = append(out.Inclusion.Elements, h.v.node(id))
	}
	return out, nil
}

// answer starts to answer a request.
func (v *Virtual) answer(label []byte, last *uint64) (*algorithms.DataProvider, structs.FullTreeHead, func() structs.CombinedTreeProof) {
	v.w.use()
	h := &vHandle{v: v, label: label}
	p := algorithms.NewDataProvider(v.w.cs, h)
	var fth structs.FullTreeHead
	var nP *uint64
	if last == nil || *last != v.n {
		tbs := mustMarshal(&structs.TreeHeadTBS{Config: v.w.pub, TreeSize: v.n, Root: v.root(v.n)})
		fth.TreeHead = &structs.TreeHead{TreeSize: v.n, Signature: must(v.w.priv.SignatureKey.Sign(tbs))}
		if v.w.cfg.Mode == structs.ThirdPartyAuditing {
			nP = &v.audN
			fth.AuditorTreeHead = v.head
			if v.head == nil {
				fth.AuditorTreeHead = v.w.signAuditorHead(v.epoch(v.audN-1).ts, v.audN, v.root(v.audN), v.w.audKey)
			}
		}
	}
	if last != nil {
		entries := make(map[uint64]structs.LogEntry)
		for _, x := range bstFrontier(*last) {
			entries[x] = structs.LogEntry{Timestamp: v.epoch(x).ts, PrefixTree: v.epoch(x).root}
		}
		check(p.AddRetained(nil, entries))
	}
	check(algorithms.UpdateView(v.w.pub, v.n, last, p))
	return p, fth, func() structs.CombinedTreeProof { return *must(p.Output(v.n, nP, last)) }
}

func (v *Virtual) steps(label []byte, vers []uint32, commit func(ver uint32) bool) (out []structs.BinaryLadderStep) {
	for _, ver := range vers {
		x := v.version(label, ver)
		s := structs.BinaryLadderStep{Proof: x.proof}
		if commit(ver) {
			s.Commitment = x.com
		}
		out = append(out, s)
	}
	return
}

func (v *Virtual) Search(req *structs.SearchRequest) (*structs.SearchResponse, error) {
	p, fth, finish := v.answer(req.Label, req.Last)
	g := v.greatest(req.Label, v.n-1)
	target := uint32(max(g, 0))
	res := &structs.SearchResponse{FullTreeHead: fth}
	var err error
	if req.Version == nil {
		res.Version = &target
		_, err = algorithms.GreatestVersionSearch(v.w.pub, target, v.n, p)
	} else {
		target = *req.Version
		_, err = algorithms.FixedVersionSearch(v.w.pub, target, v.n, p)
	}
	if err != nil && !isNotFound(err) && !isExpired(err) {
		return nil, err
	}
	res.Search = finish()
	res.BinaryLadder = v.steps(req.Label, ladderOf(target), func(ver uint32) bool { return ver != target && int64(ver) <= g })
	x := v.version(req.Label, target)
	res.Opening, res.Value = x.oav.Opening, x.oav.Value
	return recode(res, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
		return structs.NewSearchResponse(v.w.pub, req, b)
	})
}

func (v *Virtual) contact(entries []structs.MonitorMapEntry) *algorithms.ContactState {
	return algorithms.NewContactState(entries)
}

func (v *Virtual) ContactMonitor(req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	p, fth, finish := v.answer(req.Label, req.Last)
	m := must(algorithms.NewMonitor(v.w.pub, v.n, p))
	m.Contact = v.contact(req.Entries)
	if err := m.ContactMonitor(); err != nil {
		return nil, err
	}
	return recode(&structs.ContactMonitorResponse{FullTreeHead: fth, Monitor: finish()}, func(b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(v.w.pub, b)
	})
}

func (v *Virtual) OwnerInit(req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	p, fth, finish := v.answer(req.Label, req.Last)
	m := must(algorithms.NewMonitor(v.w.pub, v.n, p))
	xs, err := m.InitEntries(req.Start)
	if err != nil {
		return nil, err
	}
	res := &structs.OwnerInitResponse{FullTreeHead: fth}
	set := map[uint32]bool{0: true}
	for _, x := range xs {
		g := v.greatest(req.Label, x)
		if g < 0 {
			break
		}
		res.GreatestVersions = append(res.GreatestVersions, uint32(g))
		for _, y := range ladderOf(uint32(g)) {
			set[y] = true
		}
	}
	var vers []uint32
	for x := range set {
		vers = append(vers, x)
	}
	sort.Slice(vers, func(i, j int) bool { return vers[i] < vers[j] })
	if _, err := m.OwnerInit(req.Start, res.GreatestVersions); err != nil {
		return nil, err
	}
	g := v.greatest(req.Label, req.Start)
	res.BinaryLadder = v.steps(req.Label, vers, func(ver uint32) bool { return int64(ver) <= g })
	res.Init = finish()
	return recode(res, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(v.w.pub, b)
	})
}

// OwnerMonitor answers owners that didn't create any versions after their
// starting position.
func (v *Virtual) OwnerMonitor(req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	p, fth, finish := v.answer(req.Label, req.Last)
	m := must(algorithms.NewMonitor(v.w.pub, v.n, p))
	m.Contact = v.contact(req.Entries)
	m.Owner = &algorithms.OwnerState{Starting: req.Start, VerAtStarting: -1}
	if req.GreatestVersion != nil {
		m.Owner.VerAtStarting = int(*req.GreatestVersion)
	}
	if err := m.ContactMonitor(); err != nil {
		return nil, err
	} else if err := m.OwnerMonitor(); err != nil {
		return nil, err
	}
	return recode(&structs.OwnerMonitorResponse{FullTreeHead: fth, Monitor: finish()}, func(b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(v.w.pub, b)
	})
}

// vClient is a client of a virtual log.
type vClient struct {
	v  *Virtual
	cl *Client
}

func (v *Virtual) newClient() *vClient { return &vClient{v, v.w.newClient()} }

func (c *vClient) search(label []byte, ver *uint32, edit func(*structs.SearchResponse)) (*structs.SearchResponse, outcome) {
	req, vf := c.cl.searchReq(label, ver)
	res, err := c.v.Search(clonePtr(req))
	if err != nil {
		return nil, outcome{srv: err}
	}
	if edit != nil {
		edit(res)
	}
	return res, outcome{err: vf(res)}
}

func (c *vClient) init(label []byte, edit func(*structs.OwnerInitResponse)) outcome {
	req, vf, err := c.cl.c.OwnerInit(label)
	if err != nil {
		return outcome{err: err}
	}
	res, err := c.v.OwnerInit(clonePtr(req))
	if err != nil {
		return outcome{srv: err}
	}
	if edit != nil {
		edit(res)
	}
	return outcome{err: vf(res)}
}

func (c *vClient) monitor(label []byte, edit func(any)) (structs.Marshaller, outcome) {
	c.cl.st.only = label
	defer func() { c.cl.st.only = nil }()
	req, vf, err := c.cl.c.Monitor()
	if err != nil {
		return nil, outcome{err: err}
	}
	var res structs.Marshaller
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		if req == nil {
			return nil, outcome{}
		}
		var out *structs.ContactMonitorResponse
		out, err = c.v.ContactMonitor(clonePtr(req))
		res = out
	case *structs.OwnerMonitorRequest:
		var out *structs.OwnerMonitorResponse
		out, err = c.v.OwnerMonitor(clonePtr(req))
		res = out
	default:
		return nil, outcome{}
	}
	if err != nil {
		return req, outcome{srv: err}
	}
	if edit != nil {
		edit(res)
	}
	return req, outcome{err: vf(res)}
}

// checkState compares what a client retains with the virtual log.
func (c *vClient) checkState() {
	k, v := c.v.k, c.v
	s := c.cl.State()
	n := s.TreeHead.TreeSize
	want, _ := v.fullSubtrees(n)
	k.Assert(equalAll(want, s.FullSubtrees), "client retains wrong full subtrees for size %d", n)
	f := bstFrontier(n)
	k.Assert(len(f) == len(s.LogEntries), "client retains %d log entries for size %d", len(s.LogEntries), n)
	for _, x := range f {
		e, ok := s.LogEntries[x]
		k.Assert(ok && e.Timestamp == v.epoch(x).ts && bytes.Equal(e.PrefixTree, v.epoch(x).root), "client retains wrong log entry %d of %d", x, n)
	}
}

// genVirtual makes a random virtual log. Greatest versions only grow.
func genVirtual(k *Case, life bool) *Virtual {
	r := k.R
	cfg := genCfg(r)
	cfg.Start = 0
	if life && r.P(0.5) {
		cfg.Life = pick(r, cfg.RMW+1, cfg.RMW*uint64(r.Range(2, 20)))
	}
	maxN := uint64(1) << uint(r.Range(1, 62))
	spots := map[uint64]bool{0: true}
	for i := r.Range(2, 25); i > 0; i-- {
		var x uint64
		switch r.Intn(4) {
		case 0:
			x = uint64(1)<<uint(r.Intn(62)) + uint64(r.Intn(4))
		case 1:
			x = maxN - 1 - min(maxN-1, uint64(r.Intn(6)))
		case 2:
			x = uint64(r.Int63n(int64(maxN)))
		case 3: // next to a node close to the top
			x = maxN/8*uint64(r.Intn(9)) + uint64(r.Intn(3))
			x -= min(x, 1)
		}
		if x < maxN {
			spots[x] = true
		}
	}
	names := genNames(r)[:r.Range(1, 2)]
	var epochs []*vEpoch
	var ts uint64
	cur := make(map[string]int64)
	var extra []uint32
	for _, from := range sortedPos(spots) {
		ts += pick(r, 0, 1, cfg.RMW/4, cfg.RMW/2, cfg.RMW-1, cfg.RMW, cfg.RMW+1, 3*cfg.RMW)
		e := &vEpoch{from: from, ts: ts, set: make(map[string]int64)}
		for _, l := range names {
			g, ok := cur[string(l)]
			if !ok {
				g = -1
			}
			if r.P(0.4) {
				room := int64(1<<32-1) - g
				if room > 0 {
					d := int64(1)
					switch r.Intn(4) {
					case 0:
						d = 1 + int64(r.Intn(5))
					case 1:
						d = 1 + r.Int63n(room)>>uint(r.Intn(32))
					case 2: // around a power of two
						d = int64(1)<<uint(r.Intn(33)) + int64(r.Intn(3)) - 2 - g
					}
					if d > 0 && d <= room {
						g += d
					}
				}
			}
			if g >= 0 {
				e.set[string(l)] = g
				cur[string(l)] = g
			} else {
				e.set[string(l)] = -1
			}
		}
		epochs = append(epochs, e)
	}
	for i := r.Intn(4); i > 0; i-- {
		extra = append(extra, uint32(r.Uint64()>>uint(32+r.Intn(32))))
	}
	if r.P(0.1) {
		extra = append(extra, ^uint32(0))
	}
	v := newVirtual(k, cfg, epochs, extra)
	v.publish(v.someSize())
	return v
}

// someSize picks a size that is at least the present one, or one near an epoch.
func (v *Virtual) someSize() uint64 {
	e := v.epochs[v.r.Intn(len(v.epochs))].from
	n := e + 1 + uint64(v.r.Intn(3))
	if v.r.P(0.3) {
		n = e + 1 + v.r.Uint64()>>uint(2+v.r.Intn(61))
	}
	return min(max(n, v.n, 1), logmath.MaxTreeSize)
}

// someVersion picks a version that can be searched for.
func (v *Virtual) someVersion(label []byte) *uint32 {
	if v.r.P(0.3) {
		return nil
	}
	e := v.epochs[v.r.Intn(len(v.epochs))]
	g := e.set[string(label)]
	if g < 0 {
		return nil
	}
	return ptr(uint32(g))
}

// rightmostDLE is the rightmost distinguished log entry of the first n ones.
func (v *Virtual) rightmostDLE(n uint64) int64 {
	last := v.epoch(n - 1).ts
	out := int64(-1)
	left := uint64(0)
	for _, x := range bstFrontier(n) {
		if last-left < v.w.cfg.RMW {
			break
		}
		out, left = int64(x), v.epoch(x).ts
	}
	return out
}

// nextSize picks a size that is a little greater than the present one.
func (v *Virtual) nextSize() uint64 {
	i := v.epochIdx(v.n-1) + 1
	if i == len(v.epochs) {
		return v.someSize()
	}
	return max(v.n, min(v.epochs[i].from+1+uint64(v.r.Intn(3)), logmath.MaxTreeSize))
}
