//go:build P29

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P29", Level: "exploration", Min: 20000,
		Rule: "removals of labels: in small logs with all patterns of timestamps, of labels last modified in every log entry, at all distances in time; and in random histories with removals at, before and after the boundary, combined with additions to the same and to other labels, re-creations, and failing removals, where clients search, monitor, become owners and update, and an auditor follows; and of labels with hundreds of versions; an evaluation is one attempt to remove a label or one operation of a client on a label that remains, was removed or has been created again, keyed by log and label",
		Run:  runP29,
	})
}

func runP29(c *Ctx) {
	c.Each("boundary", 81, p29Boundary)
	c.Each("history", c.N(500, 10000), p29History)
	c.Each("long", c.N(32, 500), func(k *Case) {
		cfg := genCfg(k.R)
		cfg.Suite, cfg.RMW = 2, pick(k.R, uint64(10), 100)
		p29Run(k, cfg, k.R.Range(80, 160))
	})
	c.Each("many", c.N(12, 200), p29Many)
}

// p29Boundary tries all labels of a log that were last modified at different
// times.
func p29Boundary(k *Case) {
	cfg := WorldCfg{Suite: 2, Mode: structs.ContactMonitoring, RMW: 10, Ahead: huge, Behind: huge, Lag: huge, Start: pick(k.R, uint64(0), 5, 1000)}
	steps := []uint64{0, 6, 10}
	last := []uint64{0, 4, 9, 10, 31}
	depth := k.N(6, 8)
	w := newWorld(k, cfg)
	w.names = nil
	grow := func(d uint64) {
		w.setNow(w.now + d)
		n := w.n()
		l := []byte(fmt.Sprintf("once in %d", n))
		l2 := []byte(fmt.Sprintf("twice in %d", n))
		l3 := []byte(fmt.Sprintf("until %d", n))
		w.names = append(w.names, l, l2, l3)
		adds := []Add{{Label: l, Value: w.newValue()}, {Label: l2, Value: w.newValue()}, {Label: l2, Value: w.newValue()}, {Label: []byte("always"), Value: w.newValue()}, {Label: l3, Value: w.newValue()}}
		if n > 0 {
			// Created at the beginning, last modified here.
			adds = append(adds, Add{Label: []byte(fmt.Sprintf("from 0 to %d", n)), Value: w.newValue()})
		} else {
			for x := 1; x <= depth; x++ {
				adds = append(adds, Add{Label: []byte(fmt.Sprintf("from 0 to %d", x)), Value: w.newValue()})
			}
		}
		w.MustMutate(adds, nil)
	}
	grow(0)
	for i, x := 0, k.Idx; i < 4; i, x = i+1, x/3 {
		grow(steps[x%3])
		if i < 3 && k.Idx/27 != 0 {
			continue // done by other cases
		}
		p29Try(k, w, last)
	}
	for w.n() < uint64(depth) {
		grow(pick(k.R, steps...))
		p29Try(k, w, last)
	}
}

func p29Try(k *Case, w *World, last []uint64) {
	now := w.now
	labels := sortedKeys(w.cur)
	for _, d := range last {
		w.setNow(now + d)
		ts := append(w.ts(), w.now)
		prev := refPrevDLE(ts, w.cfg.RMW)
		var can [][]byte
		before := copyMem(w.mem())
		for _, l := range labels {
			vs := w.cur[l]
			if at := vs[len(vs)-1].Pos; int(at) <= prev {
				can = append(can, []byte(l))
				continue
			} else {
				err := w.Clone().Mutate(nil, [][]byte{[]byte(l)})
				k.Assert(err != nil, "label last modified in log entry %d was removed in log entry %d though log entry %d is the distinguished one before; timestamps %v, window %d", at, w.n(), prev, ts, w.cfg.RMW)
			}
			k.Eval("boundary/%v/%s", ts, l)
		}
		k.Assert(reflect.DeepEqual(before, copyMem(w.mem())), "refused removals have changed the database")
		if len(can) == 0 {
			continue
		}
		// All of them at once, and one of them.
		for _, set := range [][][]byte{can, {can[k.R.Intn(len(can))]}} {
			v := w.Clone()
			err := v.Mutate(nil, set)
			k.Assert(err == nil, "labels %q last modified in or before log entry %d could not be removed in log entry %d; timestamps %v, window %d: %v", set, prev, w.n(), ts, w.cfg.RMW, err)
			for _, l := range set {
				k.Eval("boundary/%v/%s", ts, l)
				k.Assert(len(v.index(l)) == 0, "removed label %q still has an index", l)
				k.Assert(p29Stored(v, l, 0) == nil, "value of removed label %q is still stored", l)
			}
			k.Count("labels removed at the boundary", len(set))
		}
	}
	w.setNow(now)
	w.use()
}

func p29Stored(w *World, l []byte, ver uint32) []byte {
	raw, err := w.store.GetVersion(l, ver)
	check(err)
	return raw
}

// p29Client is a client and what it was born into.
type p29Client struct {
	cl   *Client
	born uint64
}

// p29World adds to a world what is known about removals.
type p29World struct {
	*World
	since   map[string]uint64 // the log entry in which a label was last removed
	content map[string][]byte // commitments by VRF output
	gone    map[string]uint64 // VRF outputs, with the log entry that removed them
}

// settled tells whether no log entry that is looked at has an earlier life of
// the label.
func (w *p29World) settled(l []byte, xs []uint64) bool {
	r, ok := w.since[string(l)]
	if !ok {
		return true
	}
	for _, x := range xs {
		if x < r && len(w.hist[x].Labels[string(l)]) > 0 {
			return false
		}
	}
	return true
}

func (w *p29World) entry() {
	k := w.k
	n := w.n()
	e := w.hist[n-1]
	var prevLabels map[string][]Ver
	if n > 1 {
		prevLabels = w.hist[n-2].Labels
	}
	for _, l := range e.Removed {
		w.since[l] = n - 1
		for v := range prevLabels[l] {
			vrf := string(w.vrfCached(l, uint32(v)))
			delete(w.content, vrf)
			w.gone[vrf] = n - 1
			if v >= len(e.Labels[l]) {
				k.Assert(p29Stored(w.World, []byte(l), uint32(v)) == nil, "version %d of removed label %.20q is still stored", v, l)
			}
		}
		if len(e.Labels[l]) == 0 {
			k.Assert(len(w.index([]byte(l))) == 0, "removed label %.20q still has an index", l)
		}
	}
	for l, vs := range e.Labels {
		for v, ver := range vs {
			if ver.Pos == n-1 {
				vrf := string(w.vrfCached(l, uint32(v)))
				k.Assert(p29Stored(w.World, []byte(l), uint32(v)) != nil, "version %d of %.20q, created in log entry %d, is not stored", v, l, n-1)
				oav := w.stored([]byte(l), uint32(v))
				w.content[vrf] = w.commit([]byte(l), uint32(v), oav)
				delete(w.gone, vrf)
				k.Assert(bytes.Equal(oav.Value.Value, ver.Value), "wrong value stored for version %d of %.20q", v, l)
			}
		}
	}
	// The prefix tree is that of what there is now.
	var set []pEntry
	for _, vrf := range sortedKeys(w.content) {
		set = append(set, pEntry{[]byte(vrf), w.content[vrf]})
	}
	k.Assert(bytes.Equal(refPrefixRoot(set), e.Root), "prefix tree of log entry %d is not that of the %d versions that remain", n-1, len(set))
	// What was removed is absent from it, but not from earlier ones.
	tree := prefix.NewTree(w.cs, w.store.PrefixStore())
	for _, vrf := range sortedKeys(w.gone) {
		if !k.R.P(0.2) {
			continue
		}
		at := w.gone[vrf]
		for _, x := range []uint64{at - 1, at, n - 1, at + uint64(k.R.Intn(int(n-at)))} {
			res, err := tree.Search([]prefix.PrefixSearch{{Version: x + 1, VrfOutputs: [][]byte{[]byte(vrf)}}})
			k.Assert(err == nil, "lookup in the prefix tree of log entry %d: %v", x, err)
			k.Assert(res[0].Proof.Results[0].Inclusion() == (x < at), "version removed in log entry %d: included in log entry %d: %v", at, x, x >= at)
		}
		k.Count("lookups of removed versions", 1)
	}
}

func p29History(k *Case) {
	p29Run(k, genCfg(k.R), k.R.Range(8, 50))
}

func p29Run(k *Case, cfg WorldCfg, steps int) {
	r := k.R
	clear(vrfCache)
	if r.P(0.3) {
		cfg.Life = cfg.RMW + 1 + uint64(r.Intn(int(cfg.RMW)*6))
	}
	gap := cfg.AudGap
	w := &p29World{World: newWorld(k, cfg), since: map[string]uint64{}, content: map[string][]byte{}, gone: map[string]uint64{}}
	if len(w.names) > 5 {
		w.names = w.names[:5]
	}
	w.names = append(w.names, []byte("another label"), []byte("stays"))
	audited := cfg.Mode == structs.ThirdPartyAuditing
	var aud *auditor.Auditor
	if audited {
		aud = newAuditor(k, w.pub, w.audKey, &auditorStore{})
	}
	var clients []*p29Client
	w.MustMutate([]Add{{Label: []byte("another label"), Value: []byte("other")}}, nil) // Versions of the first entry can't be in update streams.
	w.entry()
	audit := func() {
		if !audited {
			return
		}
		e := w.hist[w.n()-1]
		if e.Update == nil {
			audited = false
			return
		}
		err := aud.Process(wireUpdate(k, w.cs, e.Update))
		k.Assert(err == nil, "auditor rejects log entry %d, which removes %q: %v", w.n()-1, e.Removed, err)
		if r.P(0.5) {
			head, err := aud.Commit()
			k.Assert(err == nil, "auditor can not commit log entry %d, which removes %q: %v", w.n()-1, e.Removed, err)
			checkHead(k, w.pub, head, w.ts(), w.leaves(w.n()))
			if gap == 0 {
				w.publishHead(head)
			}
			k.Count("tree heads of the auditor", 1)
		}
	}
	audit()
	eager := r.Float64() * 0.7
	for i := 0; i < steps; i++ {
		if r.P(0.4) {
			w.setNow(w.now + uint64(r.Intn(int(cfg.RMW)+2)))
		} else {
			w.advance()
		}
		p29Step(k, w, eager, &audited)
		w.entry()
		audit()
		for j := r.Intn(6); j > 0; j-- {
			if len(clients) == 0 || r.P(0.1) {
				clients = append(clients, &p29Client{w.newClient(), w.n()})
			}
			p29Op(k, w, clients[r.Intn(len(clients))], audit)
		}
	}
}

// p29Many removes and creates again labels with hundreds of versions.
func p29Many(k *Case) {
	r := k.R
	clear(vrfCache)
	cfg := genCfg(r)
	cfg.Suite, cfg.Life = 2, 0
	if cfg.Mode == structs.ThirdPartyAuditing {
		cfg.Mode = structs.ContactMonitoring
	}
	w := &p29World{World: newWorld(k, cfg), since: map[string]uint64{}, content: map[string][]byte{}, gone: map[string]uint64{}}
	w.names = [][]byte{[]byte("a"), []byte("b"), []byte("stays")}
	for round := 0; round < 3; round++ {
		for left := pick(r, 65, 130, 257, r.Range(40, 600)); left > 0; {
			size := min(left, pick(r, 1, 2, 50, 300, 600))
			left -= size
			var adds []Add
			for i := 0; i < size; i++ {
				adds = append(adds, Add{Label: w.names[0], Value: w.newValue()})
			}
			for _, l := range w.names[1:] {
				if r.P(0.5) || len(w.cur[string(l)]) == 0 {
					adds = append(adds, Add{Label: l, Value: w.newValue()})
				}
			}
			w.advance()
			w.MustMutate(adds, nil)
			w.entry()
		}
		had := len(w.cur["a"])
		for try := 0; ; try++ {
			w.setNow(w.now + cfg.RMW + 1)
			var can, adds = false, []Add(nil)
			for _, l := range w.removable() {
				can = can || string(l) == "a"
			}
			if !can {
				k.Assert(try < 64, "label can't be removed ever: timestamps %v", w.ts())
				w.MustMutate(nil, nil)
				w.entry()
				continue
			}
			removes := [][]byte{[]byte("a")}
			if r.P(0.3) { // Again, with fewer versions.
				for i := r.Range(1, had); i > 0; i-- {
					adds = append(adds, Add{Label: w.names[0], Value: w.newValue()})
				}
			}
			w.MustMutate(adds, removes)
			w.entry()
			break
		}
		k.Count("versions removed with labels of many versions", had)
		k.Eval("many/%d/%d/%d", had, len(w.cur["a"]), w.n())
		// The others can be found, and so can what was created again.
		cl := w.newClient()
		for _, l := range w.names[1:] {
			res := cl.do(op{kind: "greatest", label: l}, w.World, tamper{})
			k.Assert(res.ok(), "search for %q after removal of a label with %d versions: %v", l, had, res.outcome)
		}
	}
	w.use()
}

// p29Step adds a log entry, with some removals, after trying some that are not
// allowed.
func p29Step(k *Case, w *p29World, eager float64, audited *bool) {
	r := k.R
	can := make(map[string]bool)
	var removes [][]byte
	for _, l := range w.removable() {
		can[string(l)] = true
		if string(l) != "stays" && r.P(eager) {
			removes = append(removes, l)
		}
	}
	adds := w.genAdds()
	for _, l := range removes {
		if r.P(0.15) { // Created again right away.
			for j := r.Range(1, 3); j > 0; j-- {
				adds = append(adds, Add{Label: l, Value: w.newValue()})
			}
			k.Count("removed and created again at once", 1)
		}
	}
	if r.P(0.1) {
		removes = append(removes, []byte("no such label"))
	}
	if len(removes) > 0 && r.P(0.1) {
		removes = append(removes, removes[0])
	}
	for i := range removes {
		j := r.Intn(i + 1)
		removes[i], removes[j] = removes[j], removes[i]
	}
	// One label too many.
	var cannot [][]byte
	for _, l := range sortedKeys(w.cur) {
		if len(w.cur[l]) > 0 && !can[l] {
			cannot = append(cannot, []byte(l))
		}
	}
	if len(cannot) > 0 && r.P(0.4) {
		l := cannot[r.Intn(len(cannot))]
		all := append(bytesSlice(removes), l)
		if r.P(0.5) {
			all = [][]byte{l}
		}
		before := copyMem(w.mem())
		head := w.treeHead()
		err := w.Mutate(adds, all)
		vs := w.cur[string(l)]
		k.Assert(err != nil, "label last modified in log entry %d was removed though log entry %d is the distinguished one before; timestamps %v", vs[len(vs)-1].Pos, refPrevDLE(append(w.ts(), w.now), w.cfg.RMW), append(w.ts(), w.now))
		k.Assert(reflect.DeepEqual(before, copyMem(w.mem())) && reflect.DeepEqual(head, w.treeHead()), "a refused removal has changed the database")
		k.Count("refused removals", 1)
		k.Eval("refused/%v/%d/%d", w.ts(), w.now, vs[len(vs)-1].Pos)
	}
	if *audited && w.collapsing(adds, removes) {
		if r.P(0.9) {
			removes = nil // see the known finding of P09
		} else {
			*audited = false
		}
		if w.collapsing(adds, removes) {
			*audited = false
		}
	}
	w.MustMutate(adds, removes)
	for _, l := range removes {
		k.Eval("removed/%v/%s/%d", w.ts(), l, len(adds))
		k.Count("labels removed", 1)
	}
}

func bytesSlice(s [][]byte) [][]byte { return append([][]byte(nil), s...) }

func p29Op(k *Case, w *p29World, c *p29Client, audit func()) {
	r, cl := k.R, c.cl
	l := w.names[r.Intn(len(w.names))]
	m := cl.size()
	kind := pick(r, "greatest", "fixed", "fixed", "monitor", "monitor", "init", "update", "update")
	if m == 0 {
		kind = pick(r, "greatest", "fixed")
	}
	var have, own [][]byte
	for _, l := range sortedKeys(cl.st.labels) {
		have = append(have, []byte(l))
		if cl.Label([]byte(l)).Owner != nil {
			own = append(own, []byte(l))
		}
	}
	if kind == "monitor" && len(have) > 0 {
		l = have[r.Intn(len(have))]
	} else if kind == "update" && len(own) > 0 {
		l = own[r.Intn(len(own))]
	}
	removed, was := w.since[string(l)]
	ever := was
	// The client retains something about an earlier life of the label.
	stale := was && c.born <= removed && cl.st.labels[string(l)].raw != nil
	vers := w.cur[string(l)]
	n := w.n()
	ts := w.ts()
	desc := fmt.Sprintf("%s of %.20q (removed in %v %v, versions since in %v) by a client that knows %d of %d log entries with timestamps %v", kind, l, removed, was, p29Pos(vers), m, n, ts)
	class := "of labels that remain"
	if ever && len(vers) == 0 {
		class = "of removed labels"
	} else if ever {
		class = "of labels created again"
	}
	switch kind {
	case "greatest", "fixed":
		o := op{kind: kind, label: l}
		want := "found"
		target := len(vers) - 1
		def := &searchDef{n: n, ts: func(x uint64) uint64 { return ts[x] }, rmw: w.cfg.RMW, life: w.cfg.Life, greatest: func(x uint64) int64 {
			return int64(sort.Search(len(vers), func(i int) bool { return vers[i].Pos > x })) - 1
		}}
		var path []uint64
		if kind == "fixed" {
			target = r.Intn(len(vers) + 2)
			o.ver = uint32(target)
			d := def.want(o.ver)
			want = d.kind
			for _, x := range d.path {
				if !def.expired(x) {
					path = append(path, x)
				}
			}
		} else {
			for _, x := range bstFrontier(n) {
				if int(x) >= refRightmostDLE(ts, w.cfg.RMW) {
					path = append(path, x)
				}
			}
			if len(vers) == 0 {
				want = "absent"
			}
		}
		res := cl.do(o, w.World, tamper{})
		desc = fmt.Sprintf("%s, version %d: %v", desc, target, res.outcome)
		switch {
		case res.ok():
			k.Assert(target >= 0 && target < len(vers), "found a version that doesn't exist: %s", desc)
			value := res.responses[0].(*structs.SearchResponse).Value.Value
			k.Assert(bytes.Equal(value, vers[target].Value), "wrong value: %s", desc)
		case isNotFound(res.err):
			k.Assert(want == "absent", "not found though it exists: %s", desc)
		}
		if stale || !w.settled(l, path) {
			k.Count("searches that earlier lives of the label disturb", 1)
			return
		}
		switch want {
		case "found":
			k.Assert(res.ok(), "%s", desc)
		case "absent":
			k.Assert(res.srv == nil && isNotFound(res.err), "%s", desc)
		case "expired":
			k.Assert(isExpired(res.srv) || isExpired(res.err), "%s", desc)
		}
		k.Count("searches "+class+": "+want, 1)
	case "monitor":
		if stale || cl.dle() < 0 || cl.Label(l) == nil {
			return
		}
		rounds := 0
		for ; rounds < 5; rounds++ {
			res := cl.do(op{kind: "monitor", label: l}, w.World, tamper{})
			k.Assert(res.ok(), "%s: %v", desc, res.outcome)
			if res.idle {
				break
			}
		}
		k.Count("monitored "+class, rounds)
	case "init":
		dle := cl.dle()
		s := cl.Label(l)
		if dle < 0 || stale || s != nil && s.Owner != nil || def0(w, ts).expired(uint64(dle)) {
			return
		}
		var xs []uint64 // the log entries that are looked at
		for _, x := range bstPath(uint64(dle), n) {
			if x <= uint64(dle) && !def0(w, ts).expired(x) {
				xs = append(xs, x)
			}
		}
		res := cl.do(op{kind: "init", label: l}, w.World, tamper{})
		if !w.settled(l, xs) {
			k.Assert(!res.ok(), "ownership begins in an earlier life of the label: %s", desc)
			k.Count("owners that earlier lives of the label prevent", 1)
			return
		}
		k.Assert(res.ok(), "%s: %v", desc, res.outcome)
		k.Count("owners "+class, 1)
	case "update":
		s := cl.Label(l)
		if stale || s == nil || s.Owner == nil || def0(w, ts).expired(uint64(cl.dle())) {
			return
		}
		o := op{kind: "update", label: l}
		for i := r.Intn(3); i > 0; i-- {
			o.values = append(o.values, w.newValue())
		}
		had := w.n()
		res := cl.do(o, w.World, tamper{seq: w.stillSequencer})
		k.Assert(res.ok(), "%s: %v", desc, res.outcome)
		if w.n() > had {
			k.Assert(w.n() == had+1, "harness: update made %d log entries", w.n()-had)
			w.entry()
			audit()
		}
		k.Count("updates "+class, 1)
	}
	cl.checkState()
	k.Eval("%s/%v/%s/%d/%d", kind, ts, l, m, len(vers))
}

func def0(w *p29World, ts []uint64) *searchDef {
	return &searchDef{n: w.n(), ts: func(x uint64) uint64 { return ts[x] }, life: w.cfg.Life, rmw: w.cfg.RMW}
}

func p29Pos(vers []Ver) (out []uint64) {
	for _, v := range vers {
		out = append(out, v.Pos)
	}
	return
}
