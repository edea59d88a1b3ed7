//go:build P24

package main

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

func init() {
	register(&Check{
		ID: "P24", Level: "exploration", Min: 3000,
		Rule: "owners of labels that know all or some of the versions request new ones (none, one or many values), which are sequenced alone, together with others' versions of the label in the same log entry, before or after entries of others, or not at all; streams are cancelled at every stage, and run concurrently with each other and with a writer on LevelDB under the race detector; responses are altered, and come from servers with false records of where versions were created; the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one stream or altered response, keyed by what was known, what was sequenced, what was done to the stream and the outcome",
		Run:  runP24,
	})
}

func runP24(c *Ctx) {
	c.Each("serial", c.N(120, 6000), p24Serial)
	c.Each("huge", c.N(6, 1000), func(k *Case) { deepRun(k, pick(k.R, 5, 40, 400), k.R.Range(20, 50), 0.2, 0.7, 0.2) })
	c.Each("concurrent", c.N(24, 500), p24Concurrent)
	c.Each("altered", c.N(120, 6000), p24Altered)
	c.Each("false index", c.N(120, 6000), p24FalseIndex)
}

// p24Other is a label that lets clients learn about the tree.
var p24Other = []byte("another label")

// p24Plan is what happens to a request to create versions.
type p24Plan struct {
	before, after int      // log entries of others next to the one with the new versions
	same          [2][]Add // others' versions of the label in the same log entry, before and after
	refuse        bool
	bogus         *uint64 // a false position is reported
	cancel        string  // when the stream is cancelled
	responses     int     // how many responses are read before that
}

func (p p24Plan) String() string {
	out := fmt.Sprintf("-%d+%d/%d,%d", p.before, p.after, len(p.same[0]), len(p.same[1]))
	if p.refuse {
		out += " refused"
	}
	if p.bogus != nil {
		out += fmt.Sprintf(" position %d reported", *p.bogus)
	}
	if p.cancel != "" {
		out += " cancelled " + p.cancel
	}
	return out
}

// p24Stream is what came of a request.
type p24Stream struct {
	responses []*structs.UpdateResponse
	err       error // sent by the server
	refused   error // error instead of a stream
	asked     int   // requests to sequence values
	pos       *uint64
}

func p24Serial(k *Case) {
	r := k.R
	cfg := genCfg(r)
	if r.P(0.3) {
		cfg.Life = cfg.RMW * uint64(r.Range(2, 12))
	}
	w := newWorld(k, cfg)
	w.names = w.names[:2]
	w.MustMutate([]Add{{Label: p24Other, Value: []byte("other")}}, nil) // Versions of the first entry can't be in update streams.
	w.advance()
	w.MustMutate(w.genAdds(), nil)
	for w.now < w.cfg.RMW {
		w.setNow(w.now + w.cfg.RMW)
	}
	w.MustMutate(w.genAdds(), nil)
	var owners []*Client
	for i := r.Range(6, 30); i > 0; i-- {
		if r.P(0.5) {
			w.advance()
			w.MustMutate(w.genAdds(), nil)
		}
		if len(owners) == 0 || len(owners) < 3 && r.P(0.2) {
			cl := w.newClient()
			if _, out := cl.Search(p24Other, nil); !out.ok() {
				k.Fail("search for another label: %v", out)
			}
			if cl.dle() < 0 {
				continue
			}
			owners = append(owners, cl)
		}
		cl := owners[r.Intn(len(owners))]
		l := w.names[r.Intn(len(w.names))]
		if s := cl.Label(l); s == nil || s.Owner == nil {
			if cl.size() < w.n() {
				cl.Search(p24Other, nil)
			}
			if w.cfg.Life > 0 {
				ts := w.ts()
				if ts[len(ts)-1]-ts[cl.dle()] >= w.cfg.Life {
					continue
				}
			}
			if _, _, out := cl.OwnerInit(l); !out.ok() {
				k.Fail("owner initialisation: %v", out)
			}
			continue
		}
		p24Call(k, w, cl, l)
		if r.P(0.2) {
			if req, out := cl.Monitor(); req != nil && !out.ok() {
				k.Fail("monitoring after updates: %v", out)
			}
		}
	}
}

func p24GenPlan(k *Case, w *World, l []byte) (p p24Plan) {
	r := k.R
	other := func(max int) (out []Add) {
		for i := r.Range(1, max); i > 0; i-- {
			out = append(out, Add{Label: l, Value: w.newValue()})
		}
		return
	}
	if r.P(0.3) {
		p.before = r.Range(1, 3)
	}
	if r.P(0.3) {
		p.after = r.Range(1, 3)
	}
	if r.P(0.3) {
		p.same[1] = other(2)
	}
	if w.cfg.Mode == structs.ThirdPartyManagement {
		p.before = 0 // The signatures wouldn't be for the right versions.
	} else if r.P(0.2) {
		p.same[0] = other(3)
	}
	switch r.Intn(12) {
	case 0:
		p.refuse = true
	case 1:
		p.bogus = ptr(pick(r, w.n()+5, w.n()+uint64(r.Intn(4)), uint64(r.Intn(int(w.n()))), ^uint64(0), 0))
	case 2, 3, 4:
		p.cancel = pick(r, "at once", "when asked", "when answered", "when read", "when read")
		p.responses = r.Intn(3)
	}
	return
}

func p24Call(k *Case, w *World, cl *Client, l []byte) {
	r := k.R
	known := 0
	if s := cl.Label(l).Owner; true {
		known = s.VerAtStarting + 1 + len(s.UpcomingVers)
	}
	var values [][]byte
	for i := pick(r, 0, 1, 1, 1, 2, 3, 8, r.Range(1, 40)); i > 0; i-- {
		values = append(values, w.newValue())
	}
	plan := p24GenPlan(k, w, l)
	if len(plan.same[0])+len(plan.same[1])+len(values) > 255 {
		plan.same = [2][]Add{}
	}
	unknown := len(w.cur[string(l)]) - known
	noUpdater := r.P(0.05)
	if noUpdater {
		w.tree = must(transparency.NewTree(w.priv, w.store, nil))
	}
	before := cl.st.clone()
	s := w.p24Run(cl, l, values, plan)
	if noUpdater {
		w.reload()
		if len(values) > 0 {
			k.Assert(plan.cancel != "" || s.err != nil || s.refused != nil, "a server that can not sequence values acted as if it could")
			s.asked++ // in spirit
			plan.refuse = true
		}
	}
	k.Logf("stream of %d values for %.20q, %d of %d versions unknown before, %v: %d responses, %d requests, position %v, error %v", len(values), l, unknown, known+unknown, plan, len(s.responses), s.asked, s.pos, s.err)
	k.Assert(s.refused == nil, "update request refused: %v", s.refused)

	// Every requested value is submitted once.
	if len(values) == 0 {
		k.Assert(s.asked == 0, "values are to be sequenced though none were requested")
	} else if plan.cancel == "" && !noUpdater {
		k.Assert(s.asked == 1, "values were submitted %d times", s.asked)
	}
	k.Assert(s.asked <= 1, "values were submitted %d times", s.asked)
	// Every version the owner didn't know is reported once and in order.
	groups := p24Groups(w.cur[string(l)], known)
	end := len(groups)
	complete := plan.cancel == "" && (len(values) == 0 || !plan.refuse && plan.bogus == nil)
	if len(values) > 0 && (plan.refuse || s.asked == 0) {
		end = len(p24Groups(w.cur[string(l)][:known+unknown], known))
	}
	k.Assert(len(s.responses) <= end, "%d responses, there are %d log entries with versions", len(s.responses), end)
	k.Assert(!complete || len(s.responses) == end && s.err == nil, "stream ended after %d responses, there are %d log entries with versions; error: %v", len(s.responses), end, s.err)
	if plan.refuse && plan.cancel == "" && len(values) > 0 {
		k.Assert(s.err != nil, "stream with values that were not sequenced ended without error")
		k.Assert(len(s.responses) == end, "stream ended after %d responses, there were %d log entries with versions unknown to the user before the request; error: %v", len(s.responses), end, s.err)
	}
	if s.err != nil {
		k.Assert(plan.refuse || plan.bogus != nil, "stream ended with an error: %v", s.err)
	}
	for i, res := range s.responses {
		p24Compare(k, w, l, groups[i], res, values)
	}
	// The client has accepted all of it.
	o := cl.Label(l).Owner
	have := o.VerAtStarting + 1 + len(o.UpcomingVers)
	want := known
	for _, g := range groups[:len(s.responses)] {
		want += g.count
	}
	k.Assert(have == want, "owner knows %d versions after the stream, expected %d", have, want)
	for i, pos := range o.UpcomingVers {
		k.Assert(w.cur[string(l)][o.VerAtStarting+1+i].Pos == pos, "owner has a wrong position for version %d", o.VerAtStarting+1+i)
	}
	if len(s.responses) == 0 {
		k.Assert(cl.st.equal(before), "stored state has changed without a response")
	}
	cl.checkState()
	k.Count("streams", 1)
	k.Count("responses", len(s.responses))
	if plan.cancel != "" {
		k.Count("streams cancelled", 1)
	} else if s.err != nil {
		k.Count("streams ended by an error", 1)
	}
	k.Eval("serial/%d/%d/%d/%d/%d/%v/%d/%v", w.cfg.Mode, w.n(), known, unknown, len(values), plan, len(s.responses), s.err != nil)
}

// p24Group is the versions of a label that were created in one log entry.
type p24Group struct {
	pos          uint64
	first, count int
}

func p24Groups(vs []Ver, from int) (out []p24Group) {
	for v := from; v < len(vs); v++ {
		if len(out) > 0 && out[len(out)-1].pos == vs[v].Pos {
			out[len(out)-1].count++
		} else {
			out = append(out, p24Group{vs[v].Pos, v, 1})
		}
	}
	return
}

func p24Compare(k *Case, w *World, l []byte, g p24Group, res *structs.UpdateResponse, values [][]byte) {
	vs := w.cur[string(l)]
	k.Assert(res.Position == g.pos, "response reports versions in log entry %d, the next are in %d", res.Position, g.pos)
	k.Assert(len(res.Info) == g.count, "response reports %d versions in log entry %d, there are %d", len(res.Info), g.pos, g.count)
	k.Assert(len(res.Values) == 0 || len(res.Values) == g.count, "response has %d values of %d versions", len(res.Values), g.count)
	if len(res.Values) == 0 {
		k.Assert(g.count == len(values), "response has no values though the %d versions in log entry %d can't be the %d requested ones", g.count, g.pos, len(values))
	}
	for i, info := range res.Info {
		value := vs[g.first+i].Value
		if len(res.Values) > 0 {
			k.Assert(bytes.Equal(res.Values[i].Value, value), "response has a wrong value for version %d", g.first+i)
		} else {
			k.Assert(bytes.Equal(values[i], value), "response has no values though version %d is not the requested one", g.first+i)
		}
		oav := w.stored(l, uint32(g.first+i))
		k.Assert(bytes.Equal(info.Opening, oav.Opening) && bytes.Equal(info.Signature, oav.Value.Signature), "response has a wrong opening or signature for version %d", g.first+i)
	}
}

// p24Run makes an update request and deals with its stream.
func (w *World) p24Run(cl *Client, l []byte, values [][]byte, plan p24Plan) (s p24Stream) {
	k := w.k
	w.use()
	req, sv, err := cl.c.Update(l, values)
	check(err)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var ch <-chan wire.UpdateResponse
	if w.cfg.Mode == structs.ThirdPartyManagement {
		mr := must(recode(w.managerReq(req), func(b *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(w.pub, b)
		}))
		ch, s.refused = w.tree.ManagerUpdate(ctx, mr)
	} else {
		ch, s.refused = w.tree.Update(ctx, must(recode(req, structs.NewUpdateRequest)))
	}
	if s.refused != nil {
		return
	}
	// read deals with what was received. It returns false if that's the end.
	failed := false
	read := func(res wire.UpdateResponse, ok bool) bool {
		if !ok {
			return false
		}
		k.Assert(s.err == nil, "something was sent after an error")
		if res.Err != nil {
			k.Assert(res.Out == nil, "an error and a response were sent together")
			s.err = res.Err
			return true
		}
		out, err := recode(res.Out, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
			return structs.NewUpdateResponse(w.pub, b)
		})
		k.Assert(err == nil, "response can not be sent: %v", err)
		s.responses = append(s.responses, out)
		if !failed {
			if err := sv.Verify(out); err != nil {
				k.Fail("response %d, for versions in log entry %d, rejected: %v", len(s.responses), out.Position, err)
			}
		}
		return true
	}
	timer := time.NewTimer(waitLimit)
	defer timer.Stop()
	drain := func() {
		cancel()
		for {
			select {
			case res, ok := <-ch:
				if !read(res, ok) {
					return
				}
			case <-timer.C:
				k.Fail("a cancelled update stream did not end within %v", waitLimit)
			}
		}
	}
	if plan.cancel == "at once" {
		drain()
		return
	}
	for {
		if plan.cancel == "when read" && len(s.responses) >= plan.responses {
			drain()
			return
		}
		select {
		case req := <-w.updates:
			s.asked++
			k.Assert(bytes.Equal(req.Label, l), "values submitted for another label")
			k.Assert(len(req.Values) == len(values), "%d values submitted, %d requested", len(req.Values), len(values))
			for i := range values {
				k.Assert(bytes.Equal(req.Values[i].Value, values[i]), "submitted value %d is not the requested one", i)
			}
			if plan.cancel == "when asked" {
				drain()
			}
			if plan.refuse {
				close(req.Response)
				if plan.cancel == "when asked" {
					return
				}
				continue
			}
			for i := plan.before; i > 0; i-- {
				w.advance()
				w.MustMutate(w.genAdds(), nil)
			}
			if w.r.P(0.5) {
				w.advance()
			}
			if req.StartingVersion != nil {
				k.Assert(int(*req.StartingVersion) == len(w.cur[string(l)]), "values are signed for version %d, the next is %d", *req.StartingVersion, len(w.cur[string(l)]))
			}
			pos := w.n()
			w.MustMutate(append(append(append([]Add(nil), plan.same[0]...), w.reqAdds(req)...), plan.same[1]...), nil)
			s.pos = &pos
			for i := plan.after; i > 0; i-- {
				w.advance()
				w.MustMutate(w.genAdds(), nil)
			}
			if plan.bogus != nil {
				pos = *plan.bogus
			}
			select {
			case req.Response <- pos:
			default:
				k.Fail("whoever sequences values has to wait for the stream to take the position")
			}
			if plan.cancel == "when answered" {
				drain()
			}
			if plan.cancel == "when asked" || plan.cancel == "when answered" {
				return
			}
		case res, ok := <-ch:
			if !read(res, ok) {
				return
			}
		case <-timer.C:
			k.Fail("an update stream neither ended nor produced anything for %v", waitLimit)
		}
	}
}

// p24Made is a request that an owner has made, and what came of it.
type p24Made struct {
	label     []byte
	known     int
	values    [][]byte
	state     string // done, refused or cancelled
	responses []*structs.UpdateResponse
}

func p24Concurrent(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	store, done, err := openLDB(dir)
	check(err)
	defer done()
	cfg := genCfg(r)
	if r.P(0.7) {
		cfg.Suite = 2
	}
	w := newWorldStore(k, cfg, store)
	w.names = w.names[:2]
	w.MustMutate([]Add{{Label: p24Other, Value: []byte("other")}}, nil)
	w.setNow(w.now + 2*cfg.RMW)
	w.MustMutate(w.genAdds(), nil)
	w.advance()
	w.MustMutate(w.genAdds(), nil)
	var c crew
	var mu sync.Mutex
	var made []p24Made
	base := slowStore{store.Clone(), &lockedRand{r: newRand(r.Int63()), rate: pick(r, 0.0, 0.02, 0.2)}}
	proto := *w
	proto.hist, proto.cur, proto.tree, proto.store = nil, nil, nil, nil
	proto.noClock = true
	var clients []*Client
	stopped := make(chan struct{})
	owner := func(id int, rr *Rand) func() {
		view := proto
		v := &view
		v.k = &Case{Ctx: k.Ctx, Name: k.Name, Idx: k.Idx, R: rr}
		v.r = rr
		cl := v.newClient()
		clients = append(clients, cl)
		no := 0
		return func() {
			newTree := func() {
				t, err := transparency.NewTree(v.priv, base.Clone(), v.updates)
				if err != nil {
					panic(caseFailed{fmt.Sprintf("tree can't be loaded beside the writer: %v", err)})
				}
				v.tree = t
			}
			newTree()
			if _, out := cl.Search(p24Other, nil); !out.ok() {
				v.k.Fail("search for another label: %v", out)
			}
			for i := rr.Range(2, 8); i > 0 && !c.stop.Load(); i-- {
				newTree()
				l := v.names[rr.Intn(len(v.names))]
				if s := cl.Label(l); s == nil || s.Owner == nil {
					if _, _, out := cl.OwnerInit(l); !out.ok() {
						v.k.Fail("owner initialisation: %v", out)
					}
				}
				o := cl.Label(l).Owner
				m := p24Made{label: l, known: o.VerAtStarting + 1 + len(o.UpcomingVers)}
				for j := pick(rr, 0, 1, 1, 2, 5); j > 0; j-- {
					m.values = append(m.values, []byte(fmt.Sprintf("owner %d value %d", id, no)))
					no++
				}
				v.p24Concurrently(cl, &m)
				mu.Lock()
				made = append(made, m)
				mu.Unlock()
			}
		}
	}
	var owners crew
	for i := r.Range(2, 5); i > 0; i-- {
		owners.spawn(owner(i, newRand(r.Int63())))
	}
	submitted := make(map[string]int)
	rw := newRand(r.Int63())
	c.spawn(func() {
		var open []transparency.UpdateRequest
		var grace <-chan time.Time
		for {
			select {
			case req := <-w.updates:
				for _, v := range req.Values {
					submitted[string(v.Value)]++
				}
				open = append(open, req)
			case <-time.After(time.Duration(rw.Intn(1500)) * time.Microsecond):
			case <-grace:
				return
			}
			if len(open) == 0 && rw.P(0.8) {
				if grace == nil {
					select {
					case <-stopped:
						grace = time.After(0)
					default:
					}
				}
				continue
			}
			if len(open) < 3 && rw.P(0.5) {
				continue // Wait for more.
			}
			// A log entry with some of what was requested and others' versions.
			w.advance()
			var adds []Add
			var answer, left []transparency.UpdateRequest
			for _, l := range w.names {
				if w.cfg.Mode != structs.ThirdPartyManagement && rw.P(0.15) {
					adds = append(adds, Add{Label: l, Value: w.newValue()})
				}
			}
			count := func(l []byte) (n int) {
				for _, a := range adds {
					if bytes.Equal(a.Label, l) {
						n++
					}
				}
				return
			}
			for _, req := range open {
				switch {
				case rw.P(0.1), req.StartingVersion != nil && int(*req.StartingVersion) != len(w.cur[string(req.Label)])+count(req.Label):
					close(req.Response)
				case rw.P(0.2):
					left = append(left, req)
				default:
					adds = append(adds, w.reqAdds(req)...)
					answer = append(answer, req)
				}
			}
			for _, l := range w.names {
				if rw.P(0.1) {
					adds = append(adds, Add{Label: l, Value: w.newValue()})
				}
			}
			pos := w.n()
			w.MustMutate(adds, nil)
			for _, req := range answer {
				select {
				case req.Response <- pos:
				default:
					k.Fail("whoever sequences values has to wait for the stream to take the position")
				}
				if rw.P(0.2) {
					time.Sleep(time.Duration(rw.Intn(500)) * time.Microsecond)
				}
			}
			open = left
		}
	})
	owners.wg.Wait()
	close(stopped)
	c.wait(k)
	owners.wait(k)

	for v, n := range submitted {
		k.Assert(n == 1, "value %q was submitted %d times", v, n)
	}
	where := make(map[string][]Ver)
	for _, l := range w.names {
		for _, v := range w.cur[string(l)] {
			where[string(v.Value)] = append(where[string(v.Value)], v)
		}
	}
	for _, m := range made {
		n := 0
		for i, v := range m.values {
			at := where[string(v)]
			k.Assert(len(at) <= 1, "value %q was sequenced %d times", v, len(at))
			n += len(at)
			k.Assert(i == 0 || len(at) == 0 || len(where[string(m.values[0])]) == 1 && at[0].Pos == where[string(m.values[0])][0].Pos, "values of one request were sequenced apart")
			k.Assert(submitted[string(v)] == 1 || m.state == "cancelled", "value %q was not submitted", v)
		}
		switch m.state {
		case "done":
			k.Assert(n == len(m.values), "request for %d values ended well, but %d were sequenced", len(m.values), n)
		case "refused":
			k.Assert(n == 0, "request ended with an error, but %d values were sequenced", n)
		}
		groups := p24Groups(w.cur[string(m.label)], m.known)
		k.Assert(len(m.responses) <= len(groups), "%d responses for %d log entries", len(m.responses), len(groups))
		mine := false
		for i, res := range m.responses {
			p24Compare(k, w, m.label, groups[i], res, m.values)
			for j := groups[i].first; j < groups[i].first+groups[i].count && len(m.values) > 0; j++ {
				mine = mine || bytes.Equal(w.cur[string(m.label)][j].Value, m.values[0])
			}
		}
		k.Assert(m.state != "done" || len(m.values) == 0 || mine, "stream ended well without the versions requested")
		k.Count("concurrent streams: "+m.state, 1)
		k.Count("responses", len(m.responses))
		k.Eval("concurrent/%d/%d/%d/%d/%d/%s", w.cfg.Mode, w.n(), m.known, len(m.values), len(m.responses), m.state)
	}
	for _, cl := range clients {
		cl.w.hist, cl.w.cur = w.hist, w.cur
		cl.checkState()
		for l := range cl.st.labels {
			if o := cl.Label([]byte(l)).Owner; o != nil {
				for i, pos := range o.UpcomingVers {
					k.Assert(w.cur[l][o.VerAtStarting+1+i].Pos == pos, "owner has a wrong position for version %d", o.VerAtStarting+1+i)
				}
			}
		}
	}
}

// p24Concurrently makes a request while others do.
func (w *World) p24Concurrently(cl *Client, m *p24Made) {
	k, r := w.k, w.r
	req, sv, err := cl.c.Update(m.label, m.values)
	check(err)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var ch <-chan wire.UpdateResponse
	if w.cfg.Mode == structs.ThirdPartyManagement {
		mr := &structs.ManagerUpdateRequest{Last: req.Last, Label: m.label, GreatestVersion: req.GreatestVersion, SignedVersion: uint32(m.known)}
		for i, v := range req.Values {
			mr.Values = append(mr.Values, structs.UpdateValue{Value: v.Value, UpdateSuffix: structs.UpdateSuffix{Signature: w.signLeaf(m.label, uint32(m.known+i), v.Value)}})
		}
		ch, err = w.tree.ManagerUpdate(ctx, must(recode(mr, func(b *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(w.pub, b)
		})))
	} else {
		ch, err = w.tree.Update(ctx, must(recode(req, structs.NewUpdateRequest)))
	}
	k.Assert(err == nil, "update request refused: %v", err)
	var when <-chan time.Time
	m.state = "done"
	if r.P(0.3) {
		m.state = "cancelled"
		when = time.After(time.Duration(r.Intn(6000)) * time.Microsecond)
	}
	timer := time.NewTimer(waitLimit)
	defer timer.Stop()
	for {
		select {
		case <-when:
			cancel()
		case res, ok := <-ch:
			if !ok {
				return
			}
			if res.Err != nil {
				// This is only for values that were not sequenced.
				k.Assert(len(m.values) > 0 && m.state != "refused", "stream ended with an error: %v", res.Err)
				m.state = "refused"
				continue
			}
			k.Assert(m.state != "refused", "something was sent after an error")
			out, err := recode(res.Out, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
				return structs.NewUpdateResponse(w.pub, b)
			})
			k.Assert(err == nil, "response can not be sent: %v", err)
			if err := sv.Verify(out); err != nil {
				k.Fail("response for versions in log entry %d rejected: %v", out.Position, err)
			}
			m.responses = append(m.responses, out)
		case <-timer.C:
			k.Fail("an update stream neither ended nor produced anything for %v", waitLimit)
		}
	}
}

// ---- false responses ----

// p24Owned returns a world with an owner that doesn't know some versions.
func p24Owned(k *Case) (*World, *Client, []byte) {
	r := k.R
	cfg := genCfg(r)
	cfg.Suite = pick(r, 1, 2, 2, 2)
	cfg.RMW = pick(r, uint64(50), 100, 1000, 1000)
	w := newWorld(k, cfg)
	l := w.names[0]
	w.MustMutate([]Add{{Label: p24Other, Value: []byte("other")}}, nil)
	fresh := r.P(0.3) // The label does not exist at first.
	grow := func(n int) {
		for ; n > 0; n-- {
			w.setNow(w.now + uint64(r.Intn(40)))
			var adds []Add
			for j := pick(r, 0, 1, 1, 2, 3); j > 0 && !fresh; j-- {
				adds = append(adds, Add{Label: l, Value: w.newValue()})
			}
			w.MustMutate(adds, nil)
		}
	}
	grow(r.Range(0, 8))
	w.setNow(w.now + cfg.RMW)
	grow(r.Range(1, 4))
	cl := w.newClient()
	if _, out := cl.Search(p24Other, nil); !out.ok() {
		k.Fail("search for another label: %v", out)
	}
	if cl.dle() < 0 {
		k.Skip()
	}
	if _, _, out := cl.OwnerInit(l); !out.ok() {
		k.Fail("owner initialisation: %v", out)
	}
	if r.P(0.5) {
		cl.do(op{kind: "update", label: l}, w, tamper{})
	}
	fresh = false
	grow(r.Range(1, 10))
	return w, cl, l
}

// p24Judge checks that what an owner has accepted is true, or is for it to find
// out. It returns a description.
func p24Judge(k *Case, w *World, cl *Client, l []byte, s0 *structs.LabelOwnerState, res *structs.UpdateResponse, requested [][]byte, how string) string {
	s1 := cl.Label(l).Owner
	known := s0.VerAtStarting + 1 + len(s0.UpcomingVers)
	count := s1.VerAtStarting + 1 + len(s1.UpcomingVers) - known
	k.Assert(s1.Starting == s0.Starting && s1.VerAtStarting == s0.VerAtStarting && count == len(res.Info) && count > 0, "owner state has become %+v, was %+v, with %d versions", s1, s0, len(res.Info))
	pos := s1.UpcomingVers[len(s1.UpcomingVers)-1]
	k.Assert(pos == res.Position, "owner retains position %d, the response has %d", pos, res.Position)
	values := requested
	if len(res.Values) > 0 {
		values = nil
		for _, v := range res.Values {
			values = append(values, v.Value)
		}
	}
	k.Assert(len(values) == count, "response with %d values and %d versions accepted", len(values), count)
	vs := w.cur[string(l)]
	truth := ""
	if g := w.greatestUpTo(l, pos); g != int64(known+count-1) {
		truth = fmt.Sprintf("in log entry %d version %d is the greatest, not %d", pos, g, known+count-1)
	}
	for i := 0; i < count && truth == ""; i++ {
		v := vs[known+i]
		if v.Pos != pos {
			truth = fmt.Sprintf("version %d was created in log entry %d, not %d", known+i, v.Pos, pos)
		} else if c, _ := p24Commitment(w, l, uint32(known+i), res.Info[i], values[i]); !bytes.Equal(c, w.commit(l, uint32(known+i), w.stored(l, uint32(known+i)))) {
			truth = fmt.Sprintf("version %d has another value", known+i)
		} else if !bytes.Equal(values[i], v.Value) {
			truth = fmt.Sprintf("version %d has value %.20q, not %.20q", known+i, v.Value, values[i])
		}
	}
	if truth == "" {
		return "true"
	}
	// Only owner monitoring proves what is in distinguished log entries. It has
	// to find out at one of them.
	claimed := make(map[uint32][]byte)
	for i := range res.Info {
		claimed[uint32(known+i)], _ = p24Commitment(w, l, uint32(known+i), res.Info[i], values[i])
	}
	at, what := uint64(0), ""
	for _, x := range refDistinguished(w.ts(), w.cfg.RMW) {
		if x <= s0.Starting || x > pos || what != "" {
			continue
		}
		at = x
		g := int64(s1.VerAtStarting)
		for _, p := range s1.UpcomingVers {
			if p <= x {
				g++
			}
		}
		ladder := []uint32{0}
		if g >= 0 {
			ladder = p24Ladder(uint32(g))
		}
		for _, u := range ladder {
			exists := int64(u) <= w.greatestUpTo(l, x)
			if exists != (int64(u) <= g) {
				what = fmt.Sprintf("version %d exists: %v", u, exists)
			} else if c := claimed[u]; exists && c != nil && !bytes.Equal(c, w.commit(l, u, w.stored(l, u))) {
				what = fmt.Sprintf("version %d is another", u)
			}
		}
	}
	k.Assert(what != "", "owner accepted a response (%s) that's false: %s; no distinguished log entry shows it", how, truth)
	k.Count("false responses that owner monitoring has to detect", 1)
	o := cl.clone()
	for i := 0; i < 10; i++ {
		o.st.only = l
		req, out := o.Monitor()
		if s2 := o.Label(l).Owner; s2.Starting >= at {
			k.Fail("owner accepted a false response (%s, %s) and monitoring from %d to %d has not found out, though in log entry %d %s", how, truth, s0.Starting, s2.Starting, at, what)
		}
		if req == nil || !out.ok() {
			break
		}
	}
	return "for monitoring to find out"
}

func (w *World) greatestUpTo(l []byte, x uint64) int64 {
	out := int64(-1)
	for v, ver := range w.cur[string(l)] {
		if ver.Pos <= x {
			out = int64(v)
		}
	}
	return out
}

func p24Commitment(w *World, l []byte, ver uint32, info structs.UpdateInfo, value []byte) ([]byte, error) {
	raw, err := structs.Marshal(&structs.CommitmentValue{Label: l, Version: ver, Update: structs.UpdateValue{Value: value, UpdateSuffix: info.UpdateSuffix}})
	if err != nil {
		return nil, err
	}
	return commitments.Commit(w.cs, info.Opening, raw), nil
}

func p24Ladder(v uint32) []uint32 { return math.SearchBinaryLadder(v, v, nil, nil) }

// p24Fetch returns the responses of a server for versions an owner doesn't know.
func p24Fetch(k *Case, w *World, cl *Client, l []byte) ([]*structs.UpdateResponse, *transparency.StreamVerifier, error) {
	req, sv, err := cl.c.Update(l, nil)
	check(err)
	out, err := w.Update(req, func(transparency.UpdateRequest) (uint64, bool) {
		k.Fail("values are to be sequenced though none were requested")
		return 0, false
	})
	return out, sv, err
}

func p24Altered(k *Case) {
	r := k.R
	w, cl, l := p24Owned(k)
	honest, _, err := p24Fetch(k, w, cl, l)
	k.Assert(err == nil, "update stream: %v", err)
	if len(honest) == 0 {
		k.Skip()
	}
	m := &Mutator{r: r, cs: w.cs}
	for _, h := range honest {
		m.Pool = append(m.Pool, h)
	}
	for i := 0; i < 30; i++ {
		o := cl.clone()
		_, sv, err := o.c.Update(l, nil)
		check(err)
		which := r.Intn(len(honest))
		for j := 0; j < which; j++ {
			if err := sv.Verify(clonePtr(honest[j])); err != nil {
				k.Fail("response %d of %d rejected: %v", j, len(honest), err)
			}
		}
		s0 := o.Label(l).Owner
		res := clonePtr(honest[which])
		how := p24Alter(r, w, m, honest, which, res)
		if res2, err := recode(res, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
			return structs.NewUpdateResponse(w.pub, b)
		}); err != nil {
			k.Count("altered responses that don't decode", 1)
			continue
		} else {
			res = res2
		}
		p24Offer(k, w, o, l, sv, s0, res, nil, how)
	}
	// The response about requested values has none.
	for i := 0; i < 6; i++ {
		values := [][]byte{w.newValue()}
		for r.P(0.4) {
			values = append(values, w.newValue())
		}
		o := cl.clone()
		req, sv, err := o.c.Update(l, values)
		check(err)
		var out []*structs.UpdateResponse
		if w.cfg.Mode == structs.ThirdPartyManagement {
			out, err = w.ManagerUpdate(w.managerReq(req), w.stillSequencer)
		} else {
			out, err = w.Update(req, w.stillSequencer)
		}
		k.Assert(err == nil, "update stream: %v", err)
		for j, res := range out {
			how := ""
			s0 := o.Label(l).Owner
			if j == len(out)-1 {
				how = p24Alter(r, w, m, append(honest, res), len(honest), res)
				p24Offer(k, w, o, l, sv, s0, res, values, how)
			} else if err := sv.Verify(res); err != nil {
				k.Fail("response %d of %d rejected: %v", j, len(out), err)
			}
		}
	}
}

// p24Adapt gives a response a proof that has what the owner is going to look up,
// given what is in the log entries, rather than what would be looked up if the
// response were true.
func p24Adapt(k *Case, w *World, o *Client, l []byte, res *structs.UpdateResponse) string {
	var last *uint64
	if size := o.size(); size > 0 {
		last = &size
	}
	pr := &Prover{w: w, adapt: true}
	owner := algorithms.NewOwnerState(o.Label(l).Owner)
	fth, proof, err := pr.UpdateProof(l, last, owner, res.Position, len(res.Info))
	if err != nil {
		k.Count("responses that can't be adapted", 1)
		return ""
	}
	res.FullTreeHead, res.Update = fth, proof
	k.Count("adapted responses", 1)
	return ", adapted"
}

// p24Offer makes an owner verify a response that may be false.
func p24Offer(k *Case, w *World, o *Client, l []byte, sv *transparency.StreamVerifier, s0 *structs.LabelOwnerState, res *structs.UpdateResponse, requested [][]byte, how string) bool {
	before := o.st.clone()
	w.use()
	err := sv.Verify(res)
	verdict := "rejected"
	if err != nil {
		k.Assert(o.st.equal(before), "rejected response changed the stored state")
		k.Count("responses rejected", 1)
	} else {
		verdict = p24Judge(k, w, o, l, s0, res, requested, how)
		k.Count("altered responses accepted: "+verdict, 1)
	}
	k.Logf("response for log entry %d, %d versions, %s: %s (%v)", res.Position, len(res.Info), how, verdict, err)
	k.Eval("%s/%d/%d/%d/%d/%s/%s", k.Name, w.n(), o.size(), res.Position, len(res.Info), how, verdict)
	return err == nil
}

func p24Alter(r *Rand, w *World, m *Mutator, honest []*structs.UpdateResponse, which int, res *structs.UpdateResponse) string {
	c := len(res.Info)
	switch r.Intn(10) {
	case 0:
		res.Position = pick(r, res.Position-1, res.Position+1, uint64(r.Intn(int(w.n()))), w.n(), res.Position+1<<40)
		return fmt.Sprintf("position %d", res.Position)
	case 1:
		if c > 1 {
			res.Info = res.Info[:c-1]
			if len(res.Values) > 0 {
				res.Values = res.Values[:c-1]
			}
			return "fewer versions"
		}
		res.Info, res.Values = nil, nil
		return "no versions"
	case 2:
		i := r.Intn(len(honest))
		if len(honest[i].Info) > 0 && len(honest[i].Values) > 0 && len(res.Values) > 0 {
			res.Info = append(res.Info, honest[i].Info[0])
			res.Values = append(res.Values, honest[i].Values[0])
			return "more versions"
		}
	case 3:
		if len(res.Values) > 0 {
			i := r.Intn(len(res.Values))
			res.Values[i].Value = append(bytes.Clone(res.Values[i].Value), 'x')
			return fmt.Sprintf("another value %d", i)
		}
		for range res.Info {
			res.Values = append(res.Values, structs.LabelValue{Value: []byte("another value")})
		}
		return "values of the server's choice"
	case 4:
		if c > 1 && len(res.Values) > 1 {
			i, j := r.Intn(c), r.Intn(c)
			res.Info[i], res.Info[j] = res.Info[j], res.Info[i]
			res.Values[i], res.Values[j] = res.Values[j], res.Values[i]
			return fmt.Sprintf("versions %d and %d exchanged", i, j)
		}
	case 5:
		if c > 0 {
			i := r.Intn(c)
			res.Info[i].Opening = r.Bytes(16)
			return fmt.Sprintf("another opening %d", i)
		}
	case 6:
		// Everything but the proof is from another response.
		o := clonePtr(honest[r.Intn(len(honest))])
		res.Values, res.Info, res.BinaryLadder = o.Values, o.Info, o.BinaryLadder
		if r.P(0.5) {
			res.Position = o.Position
		}
		return "mixed with another response"
	case 7:
		*res = *clonePtr(honest[r.Intn(len(honest))])
		return "another response"
	}
	return m.Mutate(res)
}

func p24FalseIndex(k *Case) {
	r := k.R
	w, cl, l := p24Owned(k)
	o := cl.Label(l).Owner
	known := o.VerAtStarting + 1 + len(o.UpcomingVers)
	idx := w.index(l)
	for i := 0; i < 8; i++ {
		bad := append([]uint64(nil), idx...)
		low := uint64(1)
		if known > 0 {
			low = bad[known-1] + 1
		}
		for j := r.Range(1, 3); j > 0; j-- {
			v := known + r.Intn(len(bad)-known+1)
			switch r.Intn(5) {
			case 4: // created together, when the last of them was or later
				if c := r.Range(1, 4); known+c <= len(idx) && known+c <= len(bad) {
					pos := min(idx[known+c-1]+uint64(r.Intn(3)), w.n()-1)
					for u := known; u < known+c; u++ {
						bad[u] = pos
					}
				}
			case 0: // drop the last
				if len(bad) > known {
					bad = bad[:len(bad)-1]
				}
			case 1: // one more
				if len(bad) == len(idx) {
					w.putVersion(l, uint32(len(bad)), w.newValue())
				}
				if len(bad) <= len(idx) {
					bad = append(bad, w.n()-1)
				}
			default:
				if v < len(bad) {
					bad[v] = uint64(r.Range(int(min(low, w.n()-1)), int(w.n()-1)))
					if r.P(0.5) {
						bad[v] = pick(r, max(idx[min(v, len(idx)-1)], 1)-1, min(idx[min(v, len(idx)-1)]+1, w.n()-1))
					}
				}
			}
		}
		for v := 1; v < len(bad); v++ {
			if v >= known {
				bad[v] = max(bad[v], bad[v-1])
			}
		}
		if known > 0 && len(bad) > known && bad[known] <= bad[known-1] {
			continue
		}
		if len(bad) > 0 && bad[len(bad)-1] >= w.n() || known == 0 && len(bad) > 0 && bad[0] == 0 {
			continue
		}
		w.putIndex(l, bad)
		o := cl.clone()
		out, sv, err := p24Fetch(k, w, o, l)
		if err != nil {
			k.Logf("server with index %v, not %v: %v", bad, idx, err)
			k.Count("false indices the server notices", 1)
		}
		adapt := r.P(0.6)
		for _, res := range out {
			how := fmt.Sprintf("index %v, not %v", bad, idx)
			if adapt && r.P(0.7) {
				how += p24Adapt(k, w, o, l, res)
			}
			if !p24Offer(k, w, o, l, sv, o.Label(l).Owner, res, nil, how) {
				break
			}
		}
		w.putIndex(l, idx)
	}
}
