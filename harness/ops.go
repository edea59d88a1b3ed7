package main

import (
	"context"
	"errors"
	"reflect"
	"sort"
	"time"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/transparency"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

// tamper are alterations made between a client and a server.
type tamper struct {
	last func(last **uint64) // alters the size of the tree the server is told the client knows
	res  func(i int, res any)
	seq  Sequencer
}

// errInjected is how databases fail on purpose.
var errInjected = errors.New("injected database failure")

var opKinds = []string{"greatest", "fixed", "monitor", "init", "update"}

// op is one operation of a client.
type op struct {
	kind   string
	label  []byte
	ver    uint32
	values [][]byte
}

// opResult is what came of an operation. verified is the number of responses
// that the client accepted, idle is true if there was nothing to do.
type opResult struct {
	outcome
	responses []any
	verified  int
	idle      bool
}

// do performs an operation of a client against a server.
func (cl *Client) do(o op, srv *World, t tamper) (out opResult) {
	k := cl.w.k
	last := func(p **uint64) {
		if t.last != nil {
			t.last(p)
		}
	}
	edit := func(res any) {
		if t.res != nil {
			t.res(len(out.responses), res)
		}
		out.responses = append(out.responses, res)
	}
	switch o.kind {
	case "greatest", "fixed":
		ver := &o.ver
		if o.kind == "greatest" {
			ver = nil
		}
		req, vf, err := cl.trySearchReq(o.label, ver)
		if err != nil {
			k.Assert(errors.Is(err, errInjected), "client can not make a search request: %v", err)
			out.idle, out.err = true, err
			return
		}
		sent := *req
		last(&sent.Last)
		res, err := srv.Search(&sent)
		if err != nil {
			out.srv = err
			return
		}
		edit(res)
		cl.w.use()
		if out.err = vf(res); out.err == nil {
			out.verified++
		}
	case "init":
		req, vf, err := cl.c.OwnerInit(o.label)
		if err != nil {
			out.idle, out.err = true, err
			return
		}
		sent := *req
		last(&sent.Last)
		res, err := srv.OwnerInit(&sent)
		if err != nil {
			out.srv = err
			return
		}
		edit(res)
		cl.w.use()
		if out.err = vf(res); out.err == nil {
			out.verified++
		}
	case "monitor":
		cl.st.only = o.label
		defer func() { cl.st.only = nil }()
		req, vf, err := cl.c.Monitor()
		if err != nil || req == nil || reflect.ValueOf(req).IsNil() {
			out.idle, out.err = true, err
			return
		}
		switch r := req.(type) {
		case *structs.ContactMonitorRequest:
			sent := *r
			last(&sent.Last)
			req = &sent
		case *structs.OwnerMonitorRequest:
			sent := *r
			last(&sent.Last)
			req = &sent
		}
		res, err := srv.answerMonitor(req)
		if err != nil {
			out.srv = err
			return
		}
		edit(res)
		cl.w.use()
		if out.err = vf(res); out.err == nil {
			out.verified++
		}
	case "update":
		req, sv, err := cl.c.Update(o.label, o.values)
		if err != nil {
			out.idle, out.err = true, err
			return
		}
		sent := *req
		last(&sent.Last)
		seq := t.seq
		if seq == nil {
			seq = srv.defaultSequencer
		}
		srv.use()
		r2, err := recode(&sent, structs.NewUpdateRequest)
		if err != nil {
			out.srv = err
			return
		}
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		var ch <-chan wire.UpdateResponse
		if srv.cfg.Mode == structs.ThirdPartyManagement {
			ch, err = srv.tree.ManagerUpdate(ctx, srv.managerReq(r2))
		} else {
			ch, err = srv.tree.Update(ctx, r2)
		}
		if err != nil {
			out.srv = err
			return
		}
		_, out.srv = srv.runStream(ch, seq, func(i int, res *structs.UpdateResponse) bool {
			edit(res)
			cl.w.use()
			if out.err = sv.Verify(res); out.err != nil {
				return false
			}
			out.verified++
			srv.use()
			return true
		})
		// The server may still be at work.
		cancel()
		limit := time.After(waitLimit)
		for open := true; open; {
			select {
			case _, open = <-ch:
			case <-limit:
				open = false
			}
		}
		cl.w.use()
	default:
		k.Fail("harness: unknown operation")
	}
	return
}

// rebuilt returns a clone of the world whose log consists of the given
// entries. Prefix trees and label data stay as they are.
func (w *World) rebuilt(entries []Entry) *World {
	out := w.Clone()
	s := out.mem()
	clear(s.LogEntries)
	clearLogStore(s)
	out.hist = nil
	out.audSize = 0
	for _, e := range entries {
		out.appendQuiet(e)
	}
	head := out.signHead(out.n(), refLogRoot(out.leaves(out.n())))
	check(s.PutTreeHead(mustMarshal(head)))
	if w.cfg.Mode == structs.ThirdPartyAuditing {
		out.publish()
	}
	out.reload()
	return out
}

func (w *World) appendQuiet(e Entry) {
	n := w.n()
	le := structs.LogEntry{Timestamp: e.Ts, PrefixTree: e.Root}
	check(w.store.Put(n, mustMarshal(&le)))
	must(log.NewTree(w.cs, w.store.LogStore()).Append(n, refLeaf(e.Ts, e.Root)))
	w.hist = append(w.hist, e)
}

// clearLogStore empties the log tree of a store.
func clearLogStore(s *memory.TransparencyStore) {
	clear(s.LogStore().(*memory.LogStore).Data)
}

// actors are clients in various states of one world.
func (w *World) actors() []*Client {
	r := w.r
	out := []*Client{w.newClient()}
	if w.n() == 0 {
		return out
	}
	for i := 0; i < 2; i++ {
		cl := w.newClient()
		for j := r.Range(1, 4); j > 0; j-- {
			l := w.names[r.Intn(len(w.names))]
			var ver *uint32
			if c := len(w.cur[string(l)]); c > 0 && r.P(0.5) {
				ver = ptr(uint32(r.Intn(c)))
			}
			cl.Search(l, ver)
		}
		if r.P(0.6) {
			if l := w.names[r.Intn(len(w.names))]; cl.Label(l) == nil {
				cl.OwnerInit(l)
			}
		}
		out = append(out, cl)
	}
	return out
}

// randOp picks an operation that makes sense for the client.
func (cl *Client) randOp() op {
	w, r := cl.w, cl.w.r
	var owned, contact [][]byte
	for _, l := range sortedKeys(cl.st.labels) {
		if s := cl.Label([]byte(l)); s.Owner != nil {
			owned = append(owned, []byte(l))
		} else {
			contact = append(contact, []byte(l))
		}
	}
	for {
		o := op{kind: opKinds[r.Intn(len(opKinds))], label: w.names[r.Intn(len(w.names))]}
		switch o.kind {
		case "fixed":
			o.ver = uint32(r.Intn(len(w.cur[string(o.label)]) + 1))
		case "monitor":
			all := append(contact, owned...)
			if len(all) == 0 {
				continue
			}
			o.label = all[r.Intn(len(all))]
		case "init":
			if cl.dle() < 0 {
				continue
			}
			if s := cl.Label(o.label); s != nil && s.Owner != nil {
				continue
			}
		case "update":
			if len(owned) == 0 {
				continue
			}
			o.label = owned[r.Intn(len(owned))]
			for i := r.Intn(3); i >= 0; i-- {
				o.values = append(o.values, w.newValue())
			}
		}
		return o
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// timestampsOf returns the timestamps in the proof of a response. They may be
// altered in place.
func timestampsOf(res any) []uint64 {
	switch res := res.(type) {
	case *structs.SearchResponse:
		return res.Search.Timestamps
	case *structs.ContactMonitorResponse:
		return res.Monitor.Timestamps
	case *structs.OwnerInitResponse:
		return res.Init.Timestamps
	case *structs.OwnerMonitorResponse:
		return res.Monitor.Timestamps
	case *structs.UpdateResponse:
		return res.Update.Timestamps
	}
	return nil
}

func sortedPos[V any](m map[uint64]V) []uint64 {
	var out []uint64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// stillSequencer adds exactly what was requested without moving the clock.
func (w *World) stillSequencer(req transparency.UpdateRequest) (uint64, bool) {
	pos := w.n()
	w.MustMutate(w.reqAdds(req), nil)
	return pos, true
}

func (w *World) refuse(transparency.UpdateRequest) (uint64, bool) { return 0, false }

// managerReq signs the values of an update request, as an operator would.
func (w *World) managerReq(req *structs.UpdateRequest) *structs.ManagerUpdateRequest {
	start := uint32(len(w.cur[string(req.Label)]))
	out := &structs.ManagerUpdateRequest{Last: req.Last, Label: req.Label, GreatestVersion: req.GreatestVersion, SignedVersion: start}
	for i, v := range req.Values {
		out.Values = append(out.Values, structs.UpdateValue{Value: v.Value, UpdateSuffix: structs.UpdateSuffix{Signature: w.signLeaf(req.Label, start+uint32(i), v.Value)}})
	}
	return out
}
