//go:build P02

package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P02", Level: "exploration", Min: 5000,
		Rule: "honest search responses altered in one or several fields or bytes, answers to other requests, answers of the real server over a store that lies about indices or values, of signed trees whose entries contradict each other, and of a server that goes along with whatever the client finds in those, compared with a definition of the search; an evaluation is one such response given to a client, keyed by kind of alteration and result",
		Run:  runP02,
	})
}

// searchScene is a search that was answered honestly.
type searchScene struct {
	before *Client
	label  []byte
	ver    *uint32
	res    *structs.SearchResponse
	raw    []byte
	after  *Client // after verifying the honest response
	err    error
}

func (w *World) searchScene(cl *Client, label []byte, ver *uint32) *searchScene {
	s := &searchScene{before: cl.clone(), after: cl.clone(), label: label, ver: ver}
	req, vf := s.after.searchReq(label, ver)
	res, err := w.Search(req)
	if err != nil {
		return nil
	}
	s.res = clonePtr(res)
	s.raw = mustMarshal(res)
	s.err = vf(res)
	if s.err != nil && !isNotFound(s.err) && !isExpired(s.err) {
		return nil // P01 decides this.
	}
	return s
}

// judge decides whether accepting (or proving absent) res is legitimate.
func (s *searchScene) judge(k *Case, w *World, cl *Client, res *structs.SearchResponse, err error, what string) string {
	vers := w.cur[string(s.label)]
	if err != nil {
		if isNotFound(err) {
			exists := len(vers) > 0 && (s.ver == nil || int64(*s.ver) < int64(len(vers)))
			k.Assert(!exists, "%s: client was convinced that version %s of %q, which has %d versions, does not exist", what, verStr(s.ver), s.label, len(vers))
			return "notfound"
		} else if isExpired(err) {
			k.Assert(isExpired(s.err), "%s: client was convinced that a live version is expired", what)
			return "expired"
		}
		k.Assert(cl.st.equal(s.before.st), "%s: rejected response changed the stored state", what)
		return "rejected"
	}
	target := len(vers) - 1
	if s.ver != nil {
		target = int(*s.ver)
	} else {
		k.Assert(res.Version != nil && int(*res.Version) == target, "%s: accepted greatest version %v of %q, which is %d", what, res.Version, s.label, target)
	}
	k.Assert(target >= 0 && target < len(vers), "%s: accepted a version (%d) of %q that does not exist", what, target, s.label)
	k.Assert(bytes.Equal(res.Value.Value, vers[target].Value), "%s: accepted value %.60q for version %d of %q", what, res.Value.Value, target, s.label)
	k.Assert(s.err == nil, "%s: accepted although the honest answer is %v", what, s.err)
	cl.checkState()
	if a, b := cl.State(), s.after.State(); a.TreeHead.TreeSize == b.TreeHead.TreeSize {
		k.Assert(reflect.DeepEqual(a.LogEntries, b.LogEntries) && reflect.DeepEqual(a.FullSubtrees, b.FullSubtrees), "%s: accepted with a different retained view", what)
		la, lb := cl.Label(s.label), s.after.Label(s.label)
		if la == nil || lb == nil {
			k.Assert(la == nil && lb == nil, "%s: accepted with different monitoring state (stored %v, honest %v)", what, la != nil, lb != nil)
		} else {
			k.Assert(reflect.DeepEqual(la.Contact, lb.Contact), "%s: accepted with monitoring state %v, honest %v", what, la.Contact, lb.Contact)
			k.Assert(cl.st.labels[string(s.label)].terminal == s.after.st.labels[string(s.label)].terminal, "%s: accepted with different terminal", what)
			k.Assert(len(la.Versions) == len(lb.Versions), "%s: accepted with different retained versions", what)
			for _, v := range la.Versions {
				out, _ := w.vrfOf(s.label, v.Version)
				k.Assert(bytes.Equal(out, v.VrfOutput), "%s: accepted with wrong VRF output of version %d", what, v.Version)
			}
		}
	}
	return "accepted"
}

func (s *searchScene) try(k *Case, w *World, res *structs.SearchResponse, what string) string {
	cl := s.before.clone()
	_, vf := cl.searchReq(s.label, s.ver)
	w.use()
	err := vf(res)
	return s.judge(k, w, cl, res, err, what)
}

func runP02(c *Ctx) {
	c.Each("alter", c.N(70, 1500), func(k *Case) {
		w, scenes := p02World(k, genCfg(k.R))
		m := &Mutator{r: k.R, cs: w.cs}
		for _, s := range scenes {
			m.Pool = append(m.Pool, s.res)
		}
		for _, s := range scenes {
			for i := 0; i < 60; i++ {
				res := clonePtr(s.res)
				var what string
				if k.R.P(0.2) {
					raw := bytes.Clone(s.raw)
					raw[k.R.Intn(len(raw))] ^= 1 << k.R.Intn(8)
					what = "byte flip"
					dec, err := structs.NewSearchResponse(w.pub, &structs.SearchRequest{Label: s.label, Version: s.ver}, bytes.NewBuffer(raw))
					if err != nil {
						continue
					}
					res = dec
				} else {
					what = m.Mutate(res)
				}
				raw, err := structs.Marshal(res)
				if err == nil && bytes.Equal(raw, s.raw) {
					continue
				}
				out := s.try(k, w, res, fmt.Sprintf("%s of the answer to a search for version %s of %q at size %d (client %d)", what, verStr(s.ver), s.label, w.n(), s.before.size()))
				k.Eval("alter %.60s %s", what, out)
				k.Count("altered: "+out, 1)
			}
		}
	})
	c.Each("transplant", c.N(40, 600), func(k *Case) {
		cfg := genCfg(k.R)
		w, scenes := p02World(k, cfg)
		w2 := w.Clone()
		w2.advance()
		w2.MustMutate(w2.genAdds(), nil)
		for _, s := range scenes {
			for _, o := range scenes {
				if o == s {
					continue
				}
				res := clonePtr(o.res)
				if s.ver == nil && res.Version == nil {
					res.Version = o.ver
				} else if s.ver != nil {
					res.Version = nil
				}
				out := s.try(k, w, res, fmt.Sprintf("answer for version %s of %q given as answer for version %s of %q", verStr(o.ver), o.label, verStr(s.ver), s.label))
				k.Eval("transplant %s>%s %s", verStr(o.ver), verStr(s.ver), out)
				k.Count("transplanted: "+out, 1)
			}
			// The answer of another log with other keys.
			w3 := newWorld(k, cfg)
			w3.hist = nil
			for range w.hist {
				w3.MustMutate([]Add{{Label: s.label, Value: []byte("foreign")}}, nil)
			}
			if w3.n() > s.before.size() || s.before.size() == 0 {
				req, _ := s.before.clone().searchReq(s.label, s.ver)
				if res, err := w3.Search(req); err == nil {
					out := s.try(k, w, res, "answer of a log with other keys")
					k.Assert(out == "rejected", "answer of a log with other keys was not rejected: %s", out)
					k.Eval("foreign %s", out)
				}
			}
		}
	})
	c.Each("liar", c.N(120, 2000), func(k *Case) {
		w, scenes := p02World(k, genCfg(k.R))
		for _, s := range scenes {
			for i := 0; i < 6; i++ {
				lw := w.Clone()
				what := p02Lie(lw, s.label)
				req, _ := s.before.clone().searchReq(s.label, s.ver)
				res, err := lw.Search(req)
				if err != nil {
					k.Count("liar can not answer", 1)
					continue
				}
				out := s.try(k, w, res, fmt.Sprintf("server that %s, asked for version %s of %q (has %d) at size %d", what, verStr(s.ver), s.label, len(w.cur[string(s.label)]), w.n()))
				k.Eval("liar %s %s", what, out)
				k.Count("liar: "+out, 1)
			}
		}
	})
	c.Each("contradict", c.N(160, 2500), p02Contradict)
	c.Each("walk", c.N(300, 8000), p02Walk)
}

func p02World(k *Case, cfg WorldCfg) (*World, []*searchScene) {
	w := newWorld(k, cfg)
	var clients []*Client
	clients = append(clients, w.newClient())
	steps := k.R.Range(1, 24)
	for i := 0; i < steps; i++ {
		w.advance()
		w.MustMutate(w.genAdds(), nil)
		if k.R.P(0.2) {
			cl := w.newClient()
			if _, o := cl.Search(w.names[k.R.Intn(len(w.names))], nil); o.ok() {
				clients = append(clients, cl)
			}
		}
	}
	var scenes []*searchScene
	for i := 0; i < 6; i++ {
		label := w.names[k.R.Intn(len(w.names))]
		var ver *uint32
		if k.R.P(0.5) {
			ver = ptr(uint32(k.R.Intn(len(w.cur[string(label)]) + 2)))
		}
		if s := w.searchScene(clients[k.R.Intn(len(clients))], label, ver); s != nil {
			scenes = append(scenes, s)
		}
	}
	return w, scenes
}

// p02Lie makes the store lie about a label. The tree stays as it is.
func p02Lie(w *World, label []byte) string {
	r := w.r
	idx := w.index(label)
	n := w.n()
	switch r.Intn(7) {
	case 0:
		if len(idx) > 0 {
			w.putIndex(label, idx[:r.Intn(len(idx))])
			return "hides versions"
		}
	case 1:
		last := uint64(0)
		if len(idx) > 0 {
			last = idx[len(idx)-1]
		}
		for i := r.Range(1, 3); i > 0; i-- {
			pos := last + uint64(r.Intn(int(n-last)))
			w.putVersion(label, uint32(len(idx)), []byte("invented"))
			idx = append(idx, pos)
			last = pos
		}
		w.putIndex(label, idx)
		return "invents versions"
	case 2:
		if len(idx) > 0 {
			w.putVersion(label, uint32(r.Intn(len(idx))), []byte("substituted"))
			w.putVersion(label, uint32(len(idx)-1), []byte("substituted"))
			return "substitutes values"
		}
	case 3:
		if len(idx) > 0 {
			i := r.Intn(len(idx))
			lo, hi := uint64(0), n-1
			if i > 0 {
				lo = idx[i-1]
			}
			if i+1 < len(idx) {
				hi = idx[i+1]
			}
			idx[i] = lo + uint64(r.Intn(int(hi-lo+1)))
			w.putIndex(label, idx)
			return "lies about when versions were added"
		}
	case 4:
		other := w.names[r.Intn(len(w.names))]
		w.putIndex(label, w.index(other))
		for ver := range w.cur[string(other)] {
			raw := must(w.store.GetVersion(other, uint32(ver)))
			check(w.store.PutVersion(label, uint32(ver), raw))
		}
		return "answers for another label"
	case 5:
		if len(idx) > 1 {
			i, j := r.Intn(len(idx)), r.Intn(len(idx))
			a, b := must(w.store.GetVersion(label, uint32(i))), must(w.store.GetVersion(label, uint32(j)))
			check(w.store.PutVersion(label, uint32(i), b))
			check(w.store.PutVersion(label, uint32(j), a))
			return "swaps versions"
		}
	}
	w.putIndex(label, nil)
	return "denies the label"
}

// p02Contradict builds signed trees whose entries contradict each other about a
// label, and checks that whatever a client accepts is at least in the tree.
func p02Contradict(k *Case) {
	cfg := genCfg(k.R)
	w := newWorld(k, cfg)
	label := w.names[0]
	w.Grow(k.R.Range(1, 6))
	w.MustMutate([]Add{{Label: label, Value: w.newValue()}}, nil)
	// in holds, for each entry from here on, the value of each version present.
	type content map[uint32]string
	cur := content{}
	for i, v := range w.cur[string(label)] {
		cur[uint32(i)] = string(v.Value)
	}
	all := make([]content, w.n())
	for x := range all {
		all[x] = content{}
		for i, v := range w.hist[x].Labels[string(label)] {
			all[x][uint32(i)] = string(v.Value)
		}
	}
	idx := w.index(label)
	for i := k.R.Range(1, 6); i > 0; i-- {
		w.advance()
		next := content{}
		for v, s := range cur {
			next[v] = s
		}
		var add []prefix.Entry
		var remove [][]byte
		ver := uint32(k.R.Intn(len(idx) + 2))
		out, _ := w.vrfOf(label, ver)
		_, present := cur[ver]
		switch k.R.Intn(4) {
		case 0: // nothing
		case 1:
			if present {
				remove = append(remove, out)
				delete(next, ver)
			}
		case 2:
			if present {
				remove = append(remove, out)
				// A replacement takes two entries: removed here, added in the next.
				delete(next, ver)
			}
		case 3:
			if !present {
				val := fmt.Sprintf("evil-%d", w.n())
				add = append(add, w.putVersion(label, ver, []byte(val)))
				next[ver] = val
				for int(ver) >= len(idx) {
					idx = append(idx, w.n())
				}
			}
		}
		w.evilAppend(w.now, add, remove)
		cur = next
		all = append(all, cur)
	}
	for try := 0; try < 8; try++ {
		lw := w.Clone()
		// The server may claim any positions for any number of versions.
		claim := append([]uint64(nil), idx...)
		if k.R.P(0.4) && len(claim) > 0 {
			claim = claim[:k.R.Intn(len(claim)+1)]
		}
		for i := range claim {
			if k.R.P(0.2) {
				lo := uint64(0)
				if i > 0 {
					lo = claim[i-1]
				}
				claim[i] = lo + uint64(k.R.Intn(int(w.n()-lo)))
			} else if i > 0 && claim[i] < claim[i-1] {
				claim[i] = claim[i-1]
			}
		}
		lw.putIndex(label, claim)
		cl := w.newClient()
		var ver *uint32
		if k.R.P(0.5) {
			ver = ptr(uint32(k.R.Intn(len(idx) + 1)))
		}
		req, vf := cl.searchReq(label, ver)
		res, err := lw.Search(req)
		if err != nil {
			k.Count("contradiction: no answer", 1)
			continue
		}
		w.use()
		if err := vf(res); err != nil {
			if isNotFound(err) {
				// Absence must be true of the entry that decides it at least.
				if ver == nil {
					_, ok := all[len(all)-1][0]
					k.Assert(!ok, "client convinced that %q does not exist, but version 0 is in the rightmost entry", label)
				} else {
					found := true
					for _, c := range all {
						if _, ok := c[*ver]; !ok {
							found = false
						}
					}
					k.Assert(!found, "client convinced that version %d of %q does not exist, but it is in every entry", *ver, label)
				}
				k.Eval("contradict notfound")
				continue
			}
			k.Eval("contradict rejected %s", verStr(ver))
			k.Count("contradiction: rejected", 1)
			continue
		}
		target := res.Version
		if ver != nil {
			target = ver
		}
		in := false
		for _, c := range all {
			if s, ok := c[*target]; ok && s == string(res.Value.Value) {
				in = true
			}
		}
		k.Assert(in, "client accepted value %q for version %d of %q, which no log entry contains", res.Value.Value, *target, label)
		if ver == nil {
			_, ok := all[len(all)-1][*target+1]
			k.Assert(!ok, "client accepted %d as greatest version of %q, but %d is in the rightmost entry", *target, label, *target+1)
		}
		cl.checkState()
		k.Eval("contradict accepted %s %d", verStr(ver), len(all))
		k.Count("contradiction: accepted what is in the tree", 1)
	}
}

// walkLadder is what a client that looks for version t finds in a log entry:
// -1 (older), 0 or 1 (newer). It skips what it knows from other entries.
func walkLadder(t uint32, content map[uint32]string, x uint64, seen map[uint64]map[uint32]bool) int {
	found := make(map[uint32]bool)
	defer func() { seen[x] = found }()
	// Versions 0, 1, 3, 7, ... until one exceeds t, and then a binary search.
	var order []uint32
	hi := uint64(0)
	for ; ; hi = 2*hi + 1 {
		order = append(order, uint32(hi))
		if hi > uint64(t) {
			break
		}
	}
	for lo := (hi - 1) / 2; lo+1 < hi; {
		mid := (lo + hi) / 2
		order = append(order, uint32(mid))
		if mid <= uint64(t) {
			lo = mid
		} else {
			hi = mid
		}
	}
next:
	for _, v := range order {
		for y, m := range seen {
			if in, ok := m[v]; ok && (y < x && in || y > x && !in) {
				continue next
			}
		}
		_, in := content[v]
		found[v] = in
		if in && v > t {
			return 1
		} else if !in && v <= t {
			return -1
		}
	}
	return 0
}

// walk is the outcome of a search in log entries with the given contents:
// "accept", "notfound", "expired" or "reject", and the log entry where version t
// was found.
func walk(cfg WorldCfg, ts []uint64, all []map[uint32]string, t uint32, greatest bool) (string, uint64) {
	n := uint64(len(ts))
	rightmost := ts[n-1]
	seen := make(map[uint64]map[uint32]bool)
	if greatest {
		terminal, some, res := uint64(0), false, 0
		dle := refRightmostDLE(ts, cfg.RMW)
		for _, x := range bstFrontier(n) {
			if int64(x) < int64(dle) {
				continue
			}
			res = walkLadder(t, all[x], x, seen)
			if res > 0 {
				return "reject", 0
			} else if res == 0 && !some {
				terminal, some = x, true
			}
		}
		if res == 0 {
			return "accept", terminal
		} else if t == 0 {
			return "notfound", 0
		}
		return "reject", 0
	}
	dist := make(map[uint64]bool)
	for _, x := range refDistinguished(ts, cfg.RMW) {
		dist[x] = true
	}
	expired, leftmost, best := false, n, n // leftmost unexpired distinguished log entry on the path, leftmost candidate
	lo, size := uint64(0), n
	for size > 0 {
		x := rangeRoot(lo, size)
		if cfg.Life > 0 && rightmost-ts[x] >= cfg.Life {
			expired = true
			lo, size = x+1, lo+size-x-1
			continue
		}
		if dist[x] {
			leftmost = min(leftmost, x)
		}
		switch walkLadder(t, all[x], x, seen) {
		case 0:
			if expired && leftmost > x {
				return "expired", 0
			}
			return "accept", x
		case 1:
			best = min(best, x)
			size = x - lo
		case -1:
			lo, size = x+1, lo+size-x-1
		}
	}
	if best == n {
		return "notfound", 0
	} else if expired && leftmost >= best {
		return "expired", 0
	} else if _, ok := all[best][t]; !ok {
		return "reject", 0
	}
	return "accept", best
}

// p02Walk is about a server that goes along with whatever a client finds in log
// entries that contradict each other.
func p02Walk(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.Suite = pick(r, 1, 2, 2, 2)
	cfg.RMW = pick(r, uint64(20), 100, 1000)
	cfg.AudGap = 0
	if cfg.Life = 0; r.P(0.4) {
		cfg.Life = pick(r, cfg.RMW+1, 2*cfg.RMW, 4*cfg.RMW)
	}
	w := newWorld(k, cfg)
	label := w.names[0]
	w.MustMutate([]Add{{Label: w.names[1], Value: []byte("other")}}, nil)
	all := []map[uint32]string{{}}
	oavs := make(map[uint32]*structs.OpeningAndValue)
	entry := func(v uint32) prefix.Entry {
		if oavs[v] == nil {
			w.putVersion(label, v, w.newValue())
			oavs[v] = w.stored(label, v)
		}
		out, _ := w.vrfOf(label, v)
		return prefix.Entry{VrfOutput: out, Commitment: w.commit(label, v, oavs[v])}
	}
	g, glitch := r.Range(-1, 6), pick(r, 0, 0.1, 0.3, 0.6)
	var clients []*Client
	for i := r.Range(2, 24); i > 0; i-- {
		w.setNow(w.now + pick(r, 0, cfg.RMW/10, cfg.RMW/4, cfg.RMW/2, cfg.RMW))
		if r.P(0.3) {
			g += r.Range(1, 3)
		}
		top := g
		if r.P(glitch) {
			top = r.Range(-1, g+2) // fewer or more
		}
		next := make(map[uint32]string)
		for v := 0; v <= top; v++ {
			if !r.P(glitch / 5) {
				next[uint32(v)] = ""
			}
		}
		var add []prefix.Entry
		var remove [][]byte
		last := all[len(all)-1]
		for v := range uint32(g + 12) {
			_, before := last[v]
			if _, now := next[v]; now && !before {
				add = append(add, entry(v))
			} else if before && !now {
				out, _ := w.vrfOf(label, v)
				remove = append(remove, out)
			}
		}
		w.evilAppend(w.now, add, remove)
		all = append(all, next)
		if r.P(0.15) {
			cl := w.newClient()
			if _, out := cl.Search(w.names[1], nil); out.ok() {
				clients = append(clients, cl)
			}
		}
	}
	clients = append(clients, w.newClient())
	if w.cfg.Mode == structs.ThirdPartyAuditing && w.audSize == 0 {
		k.Skip()
	}
	pr := &Prover{w: w}
	ts := w.ts()
	for i := 0; i < 12; i++ {
		cl := clients[r.Intn(len(clients))].clone()
		t := uint32(max(r.Range(g-2, g+2), 0))
		if r.P(0.3) {
			t = uint32(r.Intn(g + 3))
		}
		var ver *uint32
		if r.P(0.5) {
			ver = &t
		}
		entry(t)
		req, vf := cl.searchReq(label, ver)
		res, err := pr.Search(req, t, oavs[t])
		if err != nil {
			k.Logf("no answer: %v", err)
			k.Count("walk: no answer", 1)
			continue
		}
		before := cl.st.clone()
		want, terminal := walk(cfg, ts, all, t, ver == nil)
		w.use()
		err = vf(res)
		got := "accept"
		if isNotFound(err) {
			got = "notfound"
		} else if isExpired(err) {
			got = "expired"
		} else if err != nil {
			got = "reject"
		}
		k.Logf("search for %s (%d) in %d log entries by a client that knows %d: %s at %d: %v", verStr(ver), t, w.n(), cl.size(), want, terminal, err)
		if got != "reject" {
			k.Assert(got == want, "search for version %s (%d) ended with %q, but what is in the log entries means %q", verStr(ver), t, got, want)
		}
		if got != "accept" {
			k.Assert(cl.st.equal(before), "failed search changed the stored state")
		} else if cfg.Mode == structs.ContactMonitoring && int(terminal) > refRightmostDLE(ts, cfg.RMW) {
			l := cl.Label(label)
			at := false
			for _, e := range l.Contact {
				for _, x := range append(bstRightAncestors(terminal, w.n()), terminal) {
					at = at || e.Position == x && e.Version == t
				}
			}
			k.Assert(at, "version %d was found at %d and isn't monitored from there: %v", t, terminal, l.Contact)
		}
		if got == want {
			k.Count("walk: "+got+" as it should be", 1)
		} else {
			k.Count("walk: rejected though it need not be", 1)
		}
		k.Eval("walk %s %s %d/%d %s/%s", verStr(ver), res.Search.Timestamps, t, w.n(), want, got)
	}
}
