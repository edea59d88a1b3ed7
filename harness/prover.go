package main

import (
	"bytes"
	"errors"
	"sort"

	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// Prover answers requests about a log whose entries may contradict each other.
// It proves what is in the log, but decides what to look up in each log entry
// by what it claims to be the greatest version of the label there.
type Prover struct {
	w     *World
	claim func(label []byte, x uint64) int64
	page  int
	// adapt makes it look up what a verifier that doesn't share its claims will
	// ask for, given what is in the log entries.
	adapt bool
	// found makes it walk according to what is found instead of its claims.
	found bool
}

// proverHandle produces proofs.
type proverHandle struct {
	p          *Prover
	label      []byte
	tracker    math.VersionTracker
	timestamps []uint64
	proofs     []vProof
	roots      [][]byte
	looked     []uint32 // versions looked up, if it adapts
}

func (h *proverHandle) Tracker() *math.VersionTracker { return &h.tracker }

func (h *proverHandle) GetTimestamp(x uint64) (uint64, error) {
	ts := h.p.w.hist[x].Ts
	h.timestamps = append(h.timestamps, ts)
	return ts, nil
}

func (h *proverHandle) add(x uint64, vers []uint32) []byte {
	h.proofs = append(h.proofs, vProof{x, vers})
	return h.p.w.hist[x].Root
}

func (h *proverHandle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	g := h.p.claim(h.label, x)
	ladder := []uint32{0}
	if g >= 0 {
		l, r := h.tracker.SearchMaps(x, omit)
		ladder = math.SearchBinaryLadder(ver, uint32(g), l, r)
	}
	if h.p.adapt {
		l, r := h.tracker.SearchMaps(x, omit)
		ladder = nil
		for _, u := range math.SearchBinaryLadder(ver, ver, l, r) {
			ladder = append(ladder, u)
			if (h.p.commitmentAt(h.label, u, x) != nil) != (u <= ver) {
				break
			}
		}
		var vrfs [][]byte
		for _, u := range ladder {
			vrf, _ := h.p.w.vrfOf(h.label, u)
			vrfs = append(vrfs, vrf)
		}
		found := must(prefix.NewTree(h.p.w.cs, h.p.w.store.PrefixStore()).Search([]prefix.PrefixSearch{{Version: x + 1, VrfOutputs: vrfs}}))
		h.tracker.AddResults(x, omit, ladder, found[0].Proof.Results)
		h.looked = append(h.looked, ladder...)
		if h.p.found {
			if i := len(ladder) - 1; i >= 0 && found[0].Proof.Results[i].Inclusion() != (ladder[i] <= ver) {
				if ladder[i] <= ver {
					return h.add(x, ladder), -1, nil
				}
				return h.add(x, ladder), 1, nil
			}
			return h.add(x, ladder), 0, nil
		}
		return h.add(x, ladder), int(min(max(g-int64(ver), -1), 1)), nil
	}
	h.tracker.AddLadder(x, omit, int(g), ladder)
	res := 0
	if g < int64(ver) {
		res = -1
	} else if g > int64(ver) {
		res = 1
	}
	return h.add(x, ladder), res, nil
}

func (h *proverHandle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	return h.add(x, math.MonitoringBinaryLadder(ver)), nil
}

func (h *proverHandle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	return h.add(x, append([]uint32(nil), vers...)), nil
}

func (h *proverHandle) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	for _, x := range xs {
		h.roots = append(h.roots, h.p.w.hist[x].Root)
	}
	return h.roots, nil
}

func (h *proverHandle) Finish() ([][]byte, error) { return nil, errors.New("unused") }

func (h *proverHandle) StopCondition(x uint64, ver int) bool {
	return len(h.proofs) >= h.p.page || h.p.claim(h.label, x) > int64(ver)
}

func (h *proverHandle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	w := h.p.w
	out := &structs.CombinedTreeProof{Timestamps: h.timestamps, PrefixRoots: h.roots}
	tree := prefix.NewTree(w.cs, w.store.PrefixStore())
	for _, p := range h.proofs {
		var vrfs [][]byte
		for _, ver := range p.vers {
			vrf, _ := w.vrfOf(h.label, ver)
			vrfs = append(vrfs, vrf)
		}
		res, err := tree.Search([]prefix.PrefixSearch{{Version: p.pos + 1, VrfOutputs: vrfs}})
		if err != nil {
			return nil, err
		}
		out.PrefixProofs = append(out.PrefixProofs, res[0].Proof)
	}
	inc, err := log.NewTree(w.cs, w.store.LogStore()).GetBatch(leaves, n, nP, m)
	if err != nil {
		return nil, err
	}
	out.Inclusion.Elements = inc
	return out, nil
}

// commitmentAt is the commitment that a log entry has for a version, or nil.
func (p *Prover) commitmentAt(label []byte, ver uint32, x uint64) []byte {
	vrf, _ := p.w.vrfOf(label, ver)
	res, err := prefix.NewTree(p.w.cs, p.w.store.PrefixStore()).Search([]prefix.PrefixSearch{{Version: x + 1, VrfOutputs: [][]byte{vrf}}})
	check(err)
	return res[0].Commitments[0]
}

func (p *Prover) start(label []byte, last *uint64) (*algorithms.DataProvider, structs.FullTreeHead, func() (structs.CombinedTreeProof, error)) {
	return p.startWith(&proverHandle{p: p, label: label}, last)
}

func (p *Prover) startWith(handle *proverHandle, last *uint64) (*algorithms.DataProvider, structs.FullTreeHead, func() (structs.CombinedTreeProof, error)) {
	w := p.w
	w.use()
	n := w.n()
	dp := algorithms.NewDataProvider(w.cs, handle)
	var fth structs.FullTreeHead
	var nP *uint64
	if last == nil || *last != n {
		fth.TreeHead = w.treeHead()
		if w.cfg.Mode == structs.ThirdPartyAuditing {
			fth.AuditorTreeHead = w.auditorHead(w.audSize)
			nP = ptr(w.audSize)
		}
	}
	if last != nil {
		entries := make(map[uint64]structs.LogEntry)
		for _, x := range bstFrontier(*last) {
			entries[x] = structs.LogEntry{Timestamp: w.hist[x].Ts, PrefixTree: w.hist[x].Root}
		}
		check(dp.AddRetained(nil, entries))
	}
	check(algorithms.UpdateView(w.pub, n, last, dp))
	return dp, fth, func() (structs.CombinedTreeProof, error) {
		out, err := dp.Output(n, nP, last)
		if err != nil {
			return structs.CombinedTreeProof{}, err
		}
		return *out, nil
	}
}

// Search goes along with what the client finds in the log entries. It claims
// `target` to be the greatest version if it's asked for that.
func (p *Prover) Search(req *structs.SearchRequest, target uint32, oav *structs.OpeningAndValue) (*structs.SearchResponse, error) {
	p2 := *p
	p2.adapt = true
	handle := &proverHandle{p: &p2, label: req.Label}
	dp, fth, finish := p2.startWith(handle, req.Last)
	res := &structs.SearchResponse{FullTreeHead: fth, Opening: oav.Opening, Value: oav.Value}
	var err error
	if req.Version == nil {
		res.Version = &target
		p2.claim = func([]byte, uint64) int64 { return int64(target) }
		_, err = algorithms.GreatestVersionSearch(p.w.pub, target, p.w.n(), dp)
	} else {
		p2.claim = func([]byte, uint64) int64 { return -1 }
		p2.found = true
		_, err = algorithms.FixedVersionSearch(p.w.pub, target, p.w.n(), dp)
	}
	if err != nil {
		p.w.k.Logf("prover: %v", err)
	}
	if res.Search, err = finish(); err != nil {
		return nil, err
	}
	used := make(map[uint32][]byte)
	for _, u := range handle.looked {
		for x := uint64(0); x < p.w.n() && used[u] == nil; x++ {
			used[u] = p.commitmentAt(req.Label, u, x)
		}
	}
	for _, u := range math.SearchBinaryLadder(target, target, nil, nil) {
		_, proof := p.w.vrfOf(req.Label, u)
		step := structs.BinaryLadderStep{Proof: proof}
		if u != target {
			step.Commitment = used[u]
		}
		res.BinaryLadder = append(res.BinaryLadder, step)
	}
	return recode(res, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
		return structs.NewSearchResponse(p.w.pub, req, b)
	})
}

func (p *Prover) ContactMonitor(req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	dp, fth, finish := p.start(req.Label, req.Last)
	m := must(algorithms.NewMonitor(p.w.pub, p.w.n(), dp))
	m.Contact = algorithms.NewContactState(req.Entries)
	if err := m.ContactMonitor(); err != nil {
		return nil, err
	}
	proof, err := finish()
	if err != nil {
		return nil, err
	}
	return recode(&structs.ContactMonitorResponse{FullTreeHead: fth, Monitor: proof}, func(b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(p.w.pub, b)
	})
}

// OwnerMonitor answers as if the owner had the given state.
func (p *Prover) OwnerMonitor(req *structs.OwnerMonitorRequest, state *algorithms.OwnerState) (*structs.OwnerMonitorResponse, error) {
	dp, fth, finish := p.start(req.Label, req.Last)
	m := must(algorithms.NewMonitor(p.w.pub, p.w.n(), dp))
	m.Contact = algorithms.NewContactState(req.Entries)
	m.Owner = state
	if err := m.ContactMonitor(); err != nil {
		return nil, err
	} else if err := m.OwnerMonitor(); err != nil {
		// The claims are not those the owner expects; send what there is.
		p.w.k.Logf("prover: %v", err)
	}
	proof, err := finish()
	if err != nil {
		return nil, err
	}
	return recode(&structs.OwnerMonitorResponse{FullTreeHead: fth, Monitor: proof}, func(b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(p.w.pub, b)
	})
}

// UpdateProof proves what an owner with the given state looks up to verify that
// `count` versions were created in the log entry `pos`.
func (p *Prover) UpdateProof(label []byte, last *uint64, state *algorithms.OwnerState, pos uint64, count int) (fth structs.FullTreeHead, proof structs.CombinedTreeProof, err error) {
	g := int64(state.GreatestVersion())
	p.claim = func(_ []byte, x uint64) int64 {
		if x < pos {
			return g
		}
		return g + int64(count)
	}
	dp, fth, finish := p.start(label, last)
	m := must(algorithms.NewMonitor(p.w.pub, p.w.n(), dp))
	m.Owner = state
	if err = m.Update(pos, count); err == nil {
		proof, err = finish()
	}
	return
}

// ownerClaims are the greatest versions that the log claims at the entries that
// an owner that starts at `start` looks at.
func (p *Prover) ownerClaims(label []byte, xs []uint64) (out []uint32) {
	for _, x := range xs {
		g := p.claim(label, x)
		if g < 0 {
			break
		}
		out = append(out, uint32(g))
	}
	return
}

// OwnerInit answers with the given claims about the greatest versions at the log
// entries to look at.
func (p *Prover) OwnerInit(req *structs.OwnerInitRequest, alter func([]uint32) []uint32) (*structs.OwnerInitResponse, error) {
	p2 := *p
	dp, fth, finish := p2.start(req.Label, req.Last)
	m := must(algorithms.NewMonitor(p.w.pub, p.w.n(), dp))
	xs, err := m.InitEntries(req.Start)
	if err != nil {
		return nil, err
	}
	vers := p.ownerClaims(req.Label, xs)
	if alter != nil {
		vers = alter(vers)
	}
	claims := make(map[uint64]int64)
	for i, x := range xs {
		claims[x] = -1
		if i < len(vers) {
			claims[x] = int64(vers[i])
		}
	}
	p2.claim = func(_ []byte, x uint64) int64 { return claims[x] }
	set := map[uint32]bool{0: true}
	for _, v := range vers {
		for _, u := range math.SearchBinaryLadder(v, v, nil, nil) {
			set[u] = true
		}
	}
	var ladder []structs.BinaryLadderStep
	more := p.w.r.P(0.5)
	if more && p.w.r.P(0.7) {
		// It goes along with whatever the owner finds.
		p2.adapt = true
		set[1] = true
	}
	for _, v := range sortedVers(set) {
		_, proof := p.w.vrfOf(req.Label, v)
		step := structs.BinaryLadderStep{Proof: proof}
		if len(vers) > 0 && v <= vers[0] {
			step.Commitment = p.commitmentAt(req.Label, v, req.Start)
		} else if more {
			// It may have existed before.
			for _, x := range xs {
				if c := p.commitmentAt(req.Label, v, x); c != nil {
					step.Commitment = c
				}
			}
		}
		ladder = append(ladder, step)
	}
	if _, err := m.OwnerInit(req.Start, vers); err != nil {
		p.w.k.Logf("prover: %v", err)
	}
	proof, err := finish()
	if err != nil {
		return nil, err
	}
	return recode(&structs.OwnerInitResponse{FullTreeHead: fth, GreatestVersions: vers, BinaryLadder: ladder, Init: proof}, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(p.w.pub, b)
	})
}

func sortedVers(set map[uint32]bool) (out []uint32) {
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}
