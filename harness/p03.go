//go:build P03

package main

import (
	"fmt"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P03", Level: "fault_enumeration", Min: 1500,
		Rule: "clients of an honest log that are later served, by a server holding the real keys, from trees that were forked at an earlier entry, had an earlier entry rewritten, or were rolled back, for every kind of operation; an evaluation is one such response, keyed by the kind of operation and fork, the retained, forked and served sizes, and the result",
		Run:  runP03,
	})
}

func runP03(c *Ctx) {
	c.Each("fork", c.N(260, 4000), func(k *Case) {
		w := newWorld(k, genCfg(k.R))
		steps := k.R.Range(2, 14)
		if k.R.P(0.1) {
			steps = k.R.Range(15, 40)
		}
		var snaps []*World // snaps[i] has size i+1
		for i := 0; i < steps; i++ {
			w.advance()
			w.MustMutate(w.genAdds(), nil)
			snaps = append(snaps, w.Clone())
		}
		clients := w.actors()[1:]
		for try := 0; try < 12; try++ {
			cl := clients[k.R.Intn(len(clients))]
			if cl.size() == 0 {
				continue
			}
			p03Fork(k, w, snaps, cl)
		}
	})
	c.Each("replay", c.N(120, 1500), p03Replay)
}

func p03Fork(k *Case, w *World, snaps []*World, cl *Client) {
	m := cl.size()
	var (
		fw   *World
		f    uint64 // first entry that differs
		kind string
	)
	n := uint64(max(1, int(m)+pick(k.R, -2, -1, 0, 0, 1, 1, 2, 3, 8)))
	switch k.R.Intn(4) {
	case 0:
		kind = "history"
		f = uint64(k.R.Range(1, int(m)))
		if f == m && k.R.P(0.7) && m > 1 {
			f = uint64(k.R.Range(1, int(m)-1))
		}
		fw = snaps[f-1].Clone()
		for fw.n() < n {
			fw.advance()
			fw.MustMutate(fw.genAdds(), nil)
		}
	case 1, 2:
		f = uint64(k.R.Intn(int(m)))
		if n > f {
			entries := append([]Entry(nil), w.hist...)
			if k.R.P(0.5) {
				kind = "timestamp"
				d := uint64(k.R.Range(1, 3))
				lo, hi := uint64(0), ^uint64(0)>>1
				if f > 0 {
					lo = entries[f-1].Ts
				}
				if f+1 < uint64(len(entries)) {
					hi = entries[f+1].Ts
				}
				switch {
				case entries[f].Ts >= lo+d && k.R.P(0.5):
					entries[f].Ts -= d
				case entries[f].Ts+d <= hi:
					entries[f].Ts += d
				default:
					entries[f].Ts += d // The order of timestamps breaks, too.
				}
			} else {
				kind = "root"
				if o := entries[k.R.Intn(len(entries))].Root; string(o) != string(entries[f].Root) {
					entries[f].Root = o
				} else {
					entries[f].Root = k.R.Bytes(32)
				}
			}
			for uint64(len(entries)) < n {
				entries = append(entries, entries[len(entries)-1])
			}
			fw = w.rebuilt(entries[:n])
			break
		}
		fallthrough
	default:
		kind = "rollback"
		n = min(n, m)
		f = n
		fw = snaps[n-1].Clone()
		fw.use()
	}
	n = fw.n()
	f = 0
	for f < n && f < w.n() && fw.hist[f].Ts == w.hist[f].Ts && string(fw.hist[f].Root) == string(w.hist[f].Root) {
		f++
	}
	if f >= n && n < m {
		kind = "rollback"
	}

	o := cl.randOp()
	cl = cl.clone()
	before := cl.clone()
	w2 := w.Clone()
	w2.setNow(max(w.now, fw.now))
	cl.w = w2
	fw.setNow(w2.now)
	mode := pick(k.R, "full", "full", "full", "none")
	if n == m {
		mode = pick(k.R, "full", "none", "older")
	}
	t := tamper{last: func(last **uint64) {
		if n < m || mode == "none" {
			*last = nil
		} else if mode == "older" && m > 1 {
			*last = ptr(uint64(k.R.Range(1, int(m)-1)))
		}
	}}
	if n == m && mode != "full" && k.R.P(0.5) {
		// A new proof, but the old tree head.
		t.res = func(_ int, res any) { dropHead(res) }
		mode += "-nohead"
	}
	t.seq = fw.defaultSequencer
	if kind == "root" || kind == "timestamp" {
		t.seq = func(req transparency.UpdateRequest) (uint64, bool) {
			fw.advance()
			pos := fw.n()
			return pos, fw.Mutate(fw.reqAdds(req), nil) == nil
		}
	}
	out := cl.do(o, fw, t)
	what := fmt.Sprintf("%s on a %s fork at entry %d, size %d, client knows %d", o.kind, kind, f, n, m)
	if out.idle {
		k.Count("nothing to do", 1)
		return
	}
	if out.srv != nil && out.verified == 0 {
		k.Count("no answer from the server", 1)
		return
	}
	served := fw.n() // update streams may have added entries
	same := f >= m && served >= m
	switch {
	case same && n >= m:
		// The retained tree is a prefix of the one presented, so it is the
		// truth as far as the client can tell.
		if out.verified > 0 {
			k.Assert(cl.size() >= m, "%s: retained size decreased to %d", what, cl.size())
		}
		k.Eval("consistent %s %v", o.kind, out.verified > 0)
		k.Count("consistent extensions", 1)
	case out.verified == 0 && !isNotFound(out.err) && !isExpired(out.err):
		k.Assert(cl.st.equal(before.st), "%s: response was rejected (%v) but the retained state changed", what, out.err)
		k.Eval("%s %s %d/%d/%d %s rejected", o.kind, kind, f, n, m, mode)
		k.Count("rejected: "+kind, 1)
	case n == m && cl.size() == m:
		// The server proved something about the retained tree without touching
		// what differs. It must be true and must leave the state true.
		cl.checkState()
		k.Assert(cl.size() == m, "%s: accepted, with retained size %d", what, cl.size())
		p03Truth(k, w2, o, out, what)
		k.Eval("%s %s same head, not touching the fork", o.kind, kind)
		k.Count("accepted about the retained tree", 1)
	default:
		k.Fail("%s (%s): accepted (verified %d, %v)", what, mode, out.verified, out.err)
	}
}

func p03Truth(k *Case, w *World, o op, out opResult, what string) {
	if len(out.responses) == 0 {
		return
	}
	res, ok := out.responses[0].(*structs.SearchResponse)
	if !ok {
		return
	}
	m := w.n()
	_ = m
	vers := w.cur[string(o.label)]
	if out.err != nil {
		return // Shown not to exist or expired; P02 decides this.
	}
	ver := o.ver
	if o.kind == "greatest" {
		ver = *res.Version
	}
	k.Assert(int(ver) < len(vers) && string(vers[ver].Value) == string(res.Value.Value), "%s: accepted a false value", what)
}

// dropHead makes a response claim that the tree did not change.
func dropHead(res any) {
	switch res := res.(type) {
	case *structs.SearchResponse:
		res.FullTreeHead = structs.FullTreeHead{}
	case *structs.ContactMonitorResponse:
		res.FullTreeHead = structs.FullTreeHead{}
	case *structs.OwnerInitResponse:
		res.FullTreeHead = structs.FullTreeHead{}
	case *structs.OwnerMonitorResponse:
		res.FullTreeHead = structs.FullTreeHead{}
	case *structs.UpdateResponse:
		res.FullTreeHead = structs.FullTreeHead{}
	}
}

// p03Replay gives clients honest responses from the past.
func p03Replay(k *Case) {
	w := newWorld(k, genCfg(k.R))
	w.Grow(k.R.Range(1, 5))
	cl := w.newClient()
	label := w.names[0]
	type rec struct {
		res  *structs.SearchResponse
		size uint64
		ver  uint32
	}
	var recs []rec
	for i := 0; i < 10; i++ {
		if vers := w.cur[string(label)]; len(vers) > 0 {
			tmp := w.newClient()
			if k.R.P(0.5) {
				tmp = cl.clone()
			}
			req, _ := tmp.searchReq(label, nil)
			res, err := w.Search(req)
			if err != nil {
				k.Fail("honest search failed: %v", err)
			}
			recs = append(recs, rec{res, w.n(), uint32(len(vers) - 1)})
		}
		if k.R.P(0.6) {
			w.advance()
			w.MustMutate(w.genAdds(), nil)
		}
		if k.R.P(0.6) {
			if _, o := cl.Search(w.names[k.R.Intn(len(w.names))], nil); o.srv != nil {
				k.Fail("honest search failed: %v", o)
			}
		}
		for _, r := range recs {
			m := cl.size()
			if m == 0 || r.size >= m {
				continue
			}
			c2 := cl.clone()
			_, vf := c2.searchReq(label, nil)
			err := vf(clonePtr(r.res))
			if err == nil && r.res.FullTreeHead.TreeHead == nil && c2.size() == m {
				// The proof may happen to be right for the retained tree, too.
				e := w.hist[m-1].Labels[string(label)]
				k.Assert(int(*r.res.Version) == len(e)-1 && string(e[*r.res.Version].Value) == string(r.res.Value.Value), "response from size %d was accepted by a client that knows size %d, where it is not true", r.size, m)
				c2.checkState()
				k.Count("replayed responses that are still true", 1)
				continue
			}
			k.Assert(err != nil && !isNotFound(err) && !isExpired(err), "response from size %d was accepted by a client that knows size %d (%v)", r.size, m, err)
			k.Assert(c2.st.equal(cl.st), "replayed response changed the retained state")
			k.Eval("replay %d/%d", r.size, m)
			k.Count("replayed responses rejected", 1)
		}
	}
}
