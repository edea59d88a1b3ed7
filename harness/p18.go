//go:build P18

package main

import (
	"bytes"
	"context"
	"fmt"
	"hash/fnv"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

func init() {
	register(&Check{
		ID: "P18", Level: "exploration", Min: 30000,
		Rule: "requests of every kind with extreme, inconsistent and random fields, and honest requests altered in place or in their encoding, sent to servers of every mode with trees of all sizes including none; streams abandoned at every point; the same with servers over logs of up to 2^63 entries (most of which the database computes when asked); an evaluation is one request answered, keyed by its kind, the mode, the classes of its fields and the outcome",
		Run:  runP18,
	})
}

func runP18(c *Ctx) {
	c.Each("request", c.N(700, 40000), func(k *Case) { p18Request(k, p18World(k)) })
	c.Each("huge", c.N(150, 8000), func(k *Case) {
		if w := p18Huge(k); k.R.P(0.7) {
			p18Request(k, w)
		} else {
			p18Stream(k, w)
		}
	})
	c.Each("altered", c.N(250, 15000), p18Altered)
	c.Each("stream", c.N(250, 12000), func(k *Case) { p18Stream(k, p18World(k)) })
	c.Each("cancel", c.N(200, 8000), p18Cancel)
	c.Each("empty", c.N(12, 200), p18Empty)
	c.Each("deep", c.N(6, 60), p18Deep)
}

// meter is a store that counts what is read, and whether anything is written.
type meter struct {
	db.TransparencyStore
	reads, writes *atomic.Int64
}

func newMeter(s db.TransparencyStore) *meter {
	return &meter{s, new(atomic.Int64), new(atomic.Int64)}
}

func (m *meter) Clone() db.TransparencyStore {
	return &meter{m.TransparencyStore.Clone(), m.reads, m.writes}
}
func (m *meter) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	m.reads.Add(int64(len(labels)))
	return m.TransparencyStore.BatchGetIndex(labels)
}
func (m *meter) GetVersion(label []byte, ver uint32) ([]byte, error) {
	m.reads.Add(1)
	return m.TransparencyStore.GetVersion(label, ver)
}
func (m *meter) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	m.reads.Add(int64(len(keys)))
	return m.TransparencyStore.BatchGet(keys)
}
func (m *meter) PutTreeHead(raw []byte) error {
	m.writes.Add(1)
	return m.TransparencyStore.PutTreeHead(raw)
}
func (m *meter) PutAuditorTreeHead(raw []byte) error {
	m.writes.Add(1)
	return m.TransparencyStore.PutAuditorTreeHead(raw)
}
func (m *meter) PutIndex(label, index []byte) error {
	m.writes.Add(1)
	return m.TransparencyStore.PutIndex(label, index)
}
func (m *meter) DeleteIndex(label []byte) error {
	m.writes.Add(1)
	return m.TransparencyStore.DeleteIndex(label)
}
func (m *meter) PutVersion(label []byte, ver uint32, data []byte) error {
	m.writes.Add(1)
	return m.TransparencyStore.PutVersion(label, ver, data)
}
func (m *meter) DeleteVersion(label []byte, ver uint32) error {
	m.writes.Add(1)
	return m.TransparencyStore.DeleteVersion(label, ver)
}
func (m *meter) Put(key uint64, data []byte) error {
	m.writes.Add(1)
	return m.TransparencyStore.Put(key, data)
}
func (m *meter) Commit() error {
	m.writes.Add(1)
	return m.TransparencyStore.Commit()
}
func (m *meter) LogStore() db.LogStore { return meterLog{m.TransparencyStore.LogStore(), m} }
func (m *meter) PrefixStore() db.PrefixStore {
	return meterPrefix{m.TransparencyStore.PrefixStore(), m}
}

type meterLog struct {
	db.LogStore
	m *meter
}

func (l meterLog) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	l.m.reads.Add(int64(len(keys)))
	return l.LogStore.BatchGet(keys)
}
func (l meterLog) Put(key uint64, v []byte) error {
	l.m.writes.Add(1)
	return l.LogStore.Put(key, v)
}

type meterPrefix struct {
	db.PrefixStore
	m *meter
}

func (p meterPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	p.m.reads.Add(int64(len(keys)))
	return p.PrefixStore.BatchGet(keys)
}
func (p meterPrefix) Put(key string, v []byte) error {
	p.m.writes.Add(1)
	return p.PrefixStore.Put(key, v)
}

// printOf is a fingerprint of the content of a store.
func printOf(s *memory.TransparencyStore) uint64 {
	var sum uint64
	add := func(key string, v []byte) {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d:%s", len(key), key)
		h.Write(v)
		sum += h.Sum64()
	}
	add("head", s.TreeHead)
	add("auditor", s.Auditor)
	for k, v := range s.Indices {
		add(fmt.Sprint("i", k), v)
	}
	for k, v := range s.Versions {
		add(fmt.Sprint("v", k), v)
	}
	for k, v := range s.LogEntries {
		add(fmt.Sprint("e", k), v)
	}
	for k, v := range s.LogStore().(*memory.LogStore).Data {
		add(fmt.Sprint("l", k), v)
	}
	for k, v := range s.PrefixStore().(*memory.PrefixStore).Data {
		add(fmt.Sprint("p", k), v)
	}
	return sum
}

// victim is a server that is watched while it answers hostile requests.
type victim struct {
	*World
	k     *Case
	m     *meter
	mem   *memory.TransparencyStore
	print uint64
	tree  *transparency.Tree
	goros int
}

func newVictim(k *Case, w *World) *victim {
	v := &victim{World: w, k: k, mem: w.mem(), m: newMeter(w.store)}
	v.tree = must(transparency.NewTree(w.priv, v.m, w.updates))
	v.print = printOf(v.mem)
	v.goros = runtime.NumGoroutine()
	return v
}

// call makes one request and watches what it costs.
func (v *victim) call(kind, class string, f func() (structs.Marshaller, error)) {
	k := v.k
	v.use()
	var before, after runtime.MemStats
	r0 := v.m.reads.Load()
	t0 := time.Now()
	runtime.ReadMemStats(&before)
	res, err := f()
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	reads := v.m.reads.Load() - r0
	if used > 256<<20 || reads > 200000 {
		k.Fail("%s (%s) at %d entries allocated %d bytes and read %d records, in %v", kind, class, v.n(), used, reads, time.Since(t0))
	}
	if w := v.m.writes.Load(); w != 0 {
		k.Fail("%s (%s) wrote to the database", kind, class)
	}
	out := "error"
	if err == nil {
		out = "answer"
		if _, eerr := structs.Marshal(res); eerr != nil {
			out = "answer too large to encode"
		}
		if h := v.tree.TreeHead(); h.TreeSize != v.n() {
			k.Fail("%s (%s) changed the tree head", kind, class)
		}
	}
	k.Count(out, 1)
	k.Eval("%s/%s/%s/%s", kind, modeNames[v.cfg.Mode], class, out)
}

// finish checks what must not have changed and that honest users are still
// served.
func (v *victim) finish() {
	k := v.k
	if printOf(v.mem) != v.print {
		k.Fail("hostile requests changed what is stored")
	}
	v.settle()
	if v.n() == 0 {
		return
	}
	cl := v.newClient()
	for _, l := range v.names {
		if v.wasRemoved(l) || v.cfg.Life > 0 {
			continue
		}
		req, vf := cl.searchReq(l, nil)
		v.use()
		res, err := v.tree.Search(bg, req)
		if err != nil {
			k.Fail("an honest search fails after hostile requests: %v", err)
		}
		if err := vf(res); err != nil && !isNotFound(err) {
			k.Fail("an honest search is rejected after hostile requests: %v", err)
		}
	}
	v.tree = nil
}

// settle waits for the goroutines that requests have started to end.
func (v *victim) settle() {
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= v.goros {
			return
		}
		if i > 4000 {
			buf := make([]byte, 1<<16)
			v.k.Fail("%d goroutines are left %s\n%s", runtime.NumGoroutine()-v.goros, "after their requests were abandoned", buf[:runtime.Stack(buf, true)])
		}
		time.Sleep(time.Duration(min(i, 10)) * time.Millisecond)
	}
}

func hostileSize(r *Rand, n uint64) (*uint64, string) {
	switch r.Intn(9) {
	case 0, 1, 2:
		return nil, "none"
	case 3:
		return ptr(uint64(0)), "zero"
	case 4:
		return ptr(n), "same"
	case 5:
		return ptr(n + uint64(r.Range(1, 4))), "ahead"
	case 6:
		return ptr(pick(r, ^uint64(0), 1<<63, 1<<32, 1<<62-1, 1<<63-1)), "huge"
	}
	return ptr(uint64(r.Intn(int(n) + 1))), "less"
}

func hostilePos(r *Rand, n uint64) (uint64, string) {
	switch r.Intn(6) {
	case 0:
		return 0, "0"
	case 1:
		return n, "n"
	case 2:
		return n - 1, "n-1"
	case 3:
		return pick(r, ^uint64(0), 1<<63, 1<<63-1, 1<<32, ^uint64(0)-1), "huge"
	}
	return uint64(r.Intn(int(n) + 2)), "some"
}

func hostileVer(r *Rand, have int) (uint32, string) {
	switch r.Intn(7) {
	case 0:
		return 0, "0"
	case 1:
		return uint32(have), "next"
	case 2:
		return pick(r, ^uint32(0), 1<<31, 1<<31-1, ^uint32(0)-1, 1<<30), "huge"
	case 3:
		return uint32(have + r.Intn(10)), "above"
	}
	if have == 0 {
		return uint32(r.Intn(3)), "none"
	}
	return uint32(r.Intn(have)), "existing"
}

func (w *World) hostileLabel() ([]byte, string) {
	r := w.r
	switch r.Intn(6) {
	case 0:
		return []byte("nobody"), "unknown"
	case 1:
		return pick(r, nil, []byte{}, bytes.Repeat([]byte{0}, 255), []byte{0}), "odd"
	}
	return w.names[r.Intn(len(w.names))], "known"
}

func (w *World) hostileEntries(label []byte) ([]structs.MonitorMapEntry, string) {
	r := w.r
	vers := w.cur[string(label)]
	var out []structs.MonitorMapEntry
	switch r.Intn(6) {
	case 0:
		return nil, "empty"
	case 1, 2: // what an honest user might have
		for i, v := range vers {
			path := append([]uint64{v.Pos}, bstRightAncestors(v.Pos, w.n())...)
			if r.P(0.6) {
				out = append(out, structs.MonitorMapEntry{Position: path[r.Intn(len(path))], Version: uint32(i)})
			}
		}
		if r.P(0.5) {
			sortBy18(out)
		}
		return out, "plausible"
	case 3:
		for i := r.Range(1, 255); i > 0; i-- {
			out = append(out, structs.MonitorMapEntry{Position: uint64(r.Intn(int(w.n()) + 1)), Version: uint32(r.Intn(len(vers) + 2))})
		}
		return out, "many"
	case 4:
		for i := 0; i < 255; i++ {
			out = append(out, structs.MonitorMapEntry{Position: uint64(i), Version: uint32(i)})
		}
		return out, "full"
	}
	for i := r.Range(1, 4); i > 0; i-- {
		p, _ := hostilePos(r, w.n())
		v, _ := hostileVer(r, len(vers))
		out = append(out, structs.MonitorMapEntry{Position: p, Version: v})
	}
	if r.P(0.5) {
		sortBy18(out)
	}
	return out, "odd"
}

func sortBy18(s []structs.MonitorMapEntry) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j].Position < s[j-1].Position; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func p18Distinguished(w *World) []uint64 {
	if w.deep == nil {
		return refDistinguished(w.ts(), w.cfg.RMW)
	}
	var out []uint64
	for _, x := range []int64{w.deep.rightmostDLE(w.n()), w.deep.prevDLE(w.n())} {
		if x >= 0 {
			out = append(out, uint64(x))
		}
	}
	return out
}

// p18Huge is a log of up to the greatest possible size.
func p18Huge(k *Case) *World {
	cfg := genCfg(k.R)
	cfg.Life = pick(k.R, uint64(0), 0, 0, cfg.RMW+1, 5*cfg.RMW)
	d := genDeep(k, cfg, pick(k.R, 5, 40))
	if d == nil {
		k.Skip()
	}
	for i := k.R.Intn(4); i > 0; i-- {
		d.grow()
	}
	return d.w
}

func p18World(k *Case) *World {
	r := k.R
	cfg := genCfg(r)
	cfg.Life = pick(r, uint64(0), 0, 0, cfg.RMW+1, 2*cfg.RMW, 5*cfg.RMW)
	w := newWorld(k, cfg)
	w.Grow(r.Range(1, 14))
	if rm := w.removable(); len(rm) > 0 && r.P(0.2) {
		w.advance()
		w.MustMutate(nil, rm[:1])
		w.Grow(r.Intn(3))
	}
	if r.P(0.1) {
		w.setNow(w.now + pick(r, uint64(1), 1000, huge)) // the log has become stale
	}
	return w
}

func p18Request(k *Case, w *World) {
	r := k.R
	v := newVictim(k, w)
	for i := 0; i < 40; i++ {
		label, lc := w.hostileLabel()
		last, zc := hostileSize(r, w.n())
		have := len(w.cur[string(label)])
		switch kind := pick(r, "search", "contact", "init", "monitor", "monitor"); kind {
		case "search":
			req := &structs.SearchRequest{Last: last, Label: label}
			vc := "greatest"
			if r.P(0.7) {
				var x uint32
				x, vc = hostileVer(r, have)
				req.Version = &x
			}
			v.call(kind, lc+" "+zc+" "+vc, func() (structs.Marshaller, error) { return v.tree.Search(bg, req) })
		case "contact":
			req := &structs.ContactMonitorRequest{Last: last, Label: label}
			var ec string
			req.Entries, ec = w.hostileEntries(label)
			v.call(kind, lc+" "+zc+" "+ec, func() (structs.Marshaller, error) { return v.tree.ContactMonitor(bg, req) })
		case "init":
			start, sc := hostilePos(r, w.n())
			if d := p18Distinguished(w); len(d) > 0 && r.P(0.5) {
				start, sc = d[r.Intn(len(d))], "distinguished"
			}
			req := &structs.OwnerInitRequest{Last: last, Label: label, Start: start}
			v.call(kind, lc+" "+zc+" "+sc, func() (structs.Marshaller, error) { return v.tree.OwnerInit(bg, req) })
		case "monitor":
			start, sc := hostilePos(r, w.n())
			if d := p18Distinguished(w); len(d) > 0 && r.P(0.5) {
				start, sc = d[r.Intn(len(d))], "distinguished"
			}
			req := &structs.OwnerMonitorRequest{Last: last, Label: label, Start: start}
			vc := "no version"
			if r.P(0.75) {
				var x uint32
				x, vc = hostileVer(r, have)
				req.GreatestVersion = &x
			}
			var ec string
			req.Entries, ec = w.hostileEntries(label)
			v.call(kind, lc+" "+zc+" "+ec+" "+sc+" "+vc, func() (structs.Marshaller, error) { return v.tree.OwnerMonitor(bg, req) })
		}
	}
	v.finish()
}

// p18Altered alters the requests of honest clients.
func p18Altered(k *Case) {
	r := k.R
	w := p18World(k)
	m := &Mutator{r: r, cs: w.cs}
	var reqs []any
	for _, cl := range w.actors() {
		for i := 0; i < 3; i++ {
			var req any
			switch o := cl.randOp2(); o.kind {
			case "greatest":
				req, _ = cl.searchReq(o.label, nil)
			case "fixed":
				req, _ = cl.searchReq(o.label, &o.ver)
			case "init":
				if x, _, err := cl.c.OwnerInit(o.label); err == nil {
					req = x
				}
			case "monitor":
				cl.st.only = o.label
				if x, _, err := cl.c.Monitor(); err == nil && x != nil {
					req = x
				}
				cl.st.only = nil
			case "update":
				if x, _, err := cl.c.Update(o.label, nil); err == nil {
					req = x
				}
			}
			if req != nil {
				reqs = append(reqs, req)
			}
			if r.P(0.3) {
				cl.do(cl.randOp2(), w, tamper{})
			}
		}
	}
	m.Pool = reqs
	v := newVictim(k, w)
	for i := 0; i < 40 && len(reqs) > 0; i++ {
		raw := must(enc(reqs[r.Intn(len(reqs))]))
		c := codecOf(reqs[r.Intn(len(reqs))])
		x, err := c.dec(w.pub, false, bytes.NewBuffer(bytes.Clone(raw)))
		if err != nil {
			continue
		}
		if r.P(0.5) {
			m.Mutate(x)
		} else if len(raw) > 0 {
			for j := r.Range(1, 3); j > 0; j-- {
				raw[r.Intn(len(raw))] ^= 1 << r.Intn(8)
			}
			if x, err = c.dec(w.pub, false, bytes.NewBuffer(raw)); err != nil {
				continue
			}
		}
		v.call(c.name, "altered", func() (structs.Marshaller, error) { return v.answer(x) })
	}
	v.finish()
}

// randOp2 is randOp for clients that may know nothing yet.
func (cl *Client) randOp2() op {
	if cl.size() == 0 {
		return op{kind: pick(cl.w.r, "greatest", "fixed"), label: cl.w.names[cl.w.r.Intn(len(cl.w.names))], ver: uint32(cl.w.r.Intn(3))}
	}
	return cl.randOp()
}

func (v *victim) answer(x any) (structs.Marshaller, error) {
	switch req := x.(type) {
	case *structs.SearchRequest:
		return v.tree.Search(bg, req)
	case *structs.ContactMonitorRequest:
		return v.tree.ContactMonitor(bg, req)
	case *structs.OwnerInitRequest:
		return v.tree.OwnerInit(bg, req)
	case *structs.OwnerMonitorRequest:
		return v.tree.OwnerMonitor(bg, req)
	case *structs.UpdateRequest:
		req.Values = nil
		ch, err := v.tree.Update(bg, req)
		if err != nil {
			return nil, err
		}
		var last structs.Marshaller = &structs.LabelValue{}
		for res := range v.drain(ch) {
			if res.Err != nil {
				err = res.Err
			} else {
				last = res.Out
			}
		}
		return last, err
	}
	panic("harness: unknown request")
}

// drain passes on the responses of a stream, and fails if it gets stuck.
func (v *victim) drain(ch <-chan wire.UpdateResponse) func(yield func(wire.UpdateResponse) bool) {
	return func(yield func(wire.UpdateResponse) bool) {
		for n := 0; ; n++ {
			select {
			case res, ok := <-ch:
				if !ok {
					return
				}
				if n > 100000 {
					v.k.Fail("a stream does not end")
				}
				yield(res)
			case <-time.After(waitLimit):
				v.k.Fail("an update stream neither ended nor produced anything for %v", waitLimit)
			}
		}
	}
}

// p18Stream sends hostile update requests.
func p18Stream(k *Case, w *World) {
	r := k.R
	v := newVictim(k, w)
	for i := 0; i < 12; i++ {
		label, lc := w.hostileLabel()
		last, zc := hostileSize(r, w.n())
		x, vc := hostileVer(r, len(w.cur[string(label)]))
		gv := &x
		if r.P(0.3) {
			gv, vc = nil, "no version"
		}
		manager := r.P(0.4)
		nvals := pick(r, 0, 0, 1, 2, 255)
		var vals []structs.LabelValue
		var uvals []structs.UpdateValue
		start, _ := hostileVer(r, len(w.cur[string(label)]))
		for j := 0; j < nvals; j++ {
			vals = append(vals, structs.LabelValue{Value: r.Bytes(r.Intn(20))})
			uv := structs.UpdateValue{Value: vals[j].Value}
			if w.cfg.Mode == structs.ThirdPartyManagement {
				uv.Signature = pick(r, nil, []byte{}, r.Bytes(64), w.signLeaf(label, start+uint32(j), uv.Value))
				if r.P(0.8) {
					uv.Signature = w.signLeaf(label, start+uint32(j), uv.Value)
				}
			}
			uvals = append(uvals, uv)
		}
		answer := pick(r, "refuse", "position far away", "position before", "last position", "ignore")
		class := fmt.Sprintf("%s %s %s %d values, %v, %s", lc, zc, vc, nvals, manager, answer)
		v.call("stream", class, func() (structs.Marshaller, error) {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			var ch <-chan wire.UpdateResponse
			var err error
			if manager {
				ch, err = v.tree.ManagerUpdate(ctx, &structs.ManagerUpdateRequest{Last: last, Label: label, GreatestVersion: gv, SignedVersion: start, Values: uvals})
			} else {
				ch, err = v.tree.Update(ctx, &structs.UpdateRequest{Last: last, Label: label, GreatestVersion: gv, Values: vals})
			}
			if err != nil {
				return nil, err
			}
			var out structs.Marshaller = &structs.LabelValue{}
			for n := 0; ; n++ {
				select {
				case req := <-w.updates:
					switch answer {
					case "refuse":
						close(req.Response)
					case "position far away":
						req.Response <- pick(r, w.n()+5, ^uint64(0), 1<<63)
					case "position before":
						req.Response <- uint64(r.Intn(int(w.n())))
					case "last position":
						req.Response <- w.n() - 1
					case "ignore":
						cancel()
					}
				case res, ok := <-ch:
					if !ok {
						return out, err
					}
					if res.Err != nil {
						err = res.Err
					} else {
						out = res.Out
					}
					if n > 100000 {
						k.Fail("a stream does not end")
					}
				case <-time.After(waitLimit):
					k.Fail("an update stream neither ended nor produced anything for %v (%s)", waitLimit, class)
				}
			}
		})
	}
	v.finish()
}

// p18Cancel abandons streams at every point.
func p18Cancel(k *Case) {
	r := k.R
	w := p18World(k)
	v := newVictim(k, w)
	for i := 0; i < 12; i++ {
		label := w.names[r.Intn(len(w.names))]
		ctx, cancel := context.WithCancel(bg)
		req := &structs.UpdateRequest{Label: label}
		if w.cfg.Mode != structs.ThirdPartyManagement && r.P(0.7) {
			req.Values = []structs.LabelValue{{Value: []byte("x")}}
		}
		if r.P(0.5) {
			if c := len(w.cur[string(label)]); c > 0 {
				req.GreatestVersion = ptr(uint32(c - 1))
			}
		}
		when := pick(r, "before", "at once", "while it sends", "while it waits for the sequencer", "while it is sequenced", "after the answer")
		if when == "before" {
			cancel()
		}
		v.use()
		ch, err := v.tree.Update(ctx, req)
		if err != nil {
			cancel()
			k.Eval("cancel/%s/error", when)
			continue
		}
		switch when {
		case "while it sends":
			for j := r.Intn(3); j > 0; j-- {
				select {
				case <-ch:
				case <-time.After(time.Millisecond):
				}
			}
		case "while it waits for the sequencer":
			for j := 0; j < 50; j++ {
				select {
				case res, ok := <-ch:
					if !ok || res.Err != nil {
						j = 50
					}
				case <-time.After(time.Millisecond):
					j = 50
				}
			}
		case "while it is sequenced", "after the answer":
		loop:
			for j := 0; j < 300; j++ {
				select {
				case res, ok := <-ch:
					if !ok || res.Err != nil {
						break loop
					}
				case q := <-w.updates:
					if when == "after the answer" {
						q.Response <- w.n() - 1
					}
					break loop
				}
			}
		}
		cancel()
		// Nobody reads the channel any more.
		k.Eval("cancel/%s/%v", when, len(req.Values) > 0)
		v.settle()
	}
	v.finish()
}

// p18Empty sends requests to a server that has nothing.
func p18Empty(k *Case) {
	r := k.R
	w := newWorld(k, genCfg(r))
	for i := 0; i < 200; i++ {
		label := w.names[r.Intn(len(w.names))]
		last, _ := hostileSize(r, 0)
		var err error
		ver, _ := hostileVer(r, 0)
		pos := pick(r, uint64(0), 1, ^uint64(0))
		kind := pick(r, "search", "contact", "init", "monitor", "update", "manager")
		switch kind {
		case "search":
			_, err = w.tree.Search(bg, &structs.SearchRequest{Last: last, Label: label, Version: pick(r, nil, &ver)})
		case "contact":
			_, err = w.tree.ContactMonitor(bg, &structs.ContactMonitorRequest{Last: last, Label: label, Entries: pick(r, nil, []structs.MonitorMapEntry{{Position: pos, Version: ver}})})
		case "init":
			_, err = w.tree.OwnerInit(bg, &structs.OwnerInitRequest{Last: last, Label: label, Start: pos})
		case "monitor":
			_, err = w.tree.OwnerMonitor(bg, &structs.OwnerMonitorRequest{Last: last, Label: label, Start: pos, GreatestVersion: pick(r, nil, &ver)})
		case "update", "manager":
			ctx, cancel := context.WithCancel(bg)
			var ch <-chan wire.UpdateResponse
			if kind == "update" {
				ch, err = w.tree.Update(ctx, &structs.UpdateRequest{Last: last, Label: label, GreatestVersion: pick(r, nil, &ver)})
			} else {
				ch, err = w.tree.ManagerUpdate(ctx, &structs.ManagerUpdateRequest{Last: last, Label: label, GreatestVersion: pick(r, nil, &ver)})
			}
			if err == nil {
				for res := range ch {
					err = res.Err
					if res.Out != nil {
						k.Fail("an empty log sends an update response")
					}
				}
			}
			cancel()
			k.Eval("empty/%s/%v", kind, err == nil)
			continue
		}
		if err == nil {
			k.Fail("an empty log answers a %s request", kind)
		}
		k.Eval("empty/%s", kind)
	}
}

// p18Deep uses labels with many versions, in a log with many entries.
func p18Deep(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.Suite = 2
	cfg.RMW = pick(r, uint64(1), 100, 1000)
	w := newWorld(k, cfg)
	for i := 0; i < 120; i++ {
		w.setNow(w.now + uint64(r.Intn(int(cfg.RMW)+1)))
		c := pick(r, 1, 1, 1, 3)
		if i == 5 {
			c = 300
		}
		var adds []Add
		for ; c > 0; c-- {
			adds = append(adds, Add{Label: w.names[0], Value: []byte{byte(i)}})
		}
		w.MustMutate(adds, nil)
	}
	v := newVictim(k, w)
	label := w.names[0]
	have := len(w.cur[string(label)])
	for i := 0; i < 60; i++ {
		last, zc := hostileSize(r, w.n())
		switch i % 4 {
		case 0:
			ver, vc := hostileVer(r, have)
			v.call("search", "deep "+zc+" "+vc, func() (structs.Marshaller, error) {
				return v.tree.Search(bg, &structs.SearchRequest{Last: last, Label: label, Version: &ver})
			})
		case 1:
			var e []structs.MonitorMapEntry
			for j := 0; j < have && len(e) < 255; j += r.Range(1, 3) {
				p := w.cur[string(label)][j].Pos
				path := append([]uint64{p}, bstRightAncestors(p, w.n())...)
				e = append(e, structs.MonitorMapEntry{Position: path[r.Intn(min(len(path), 2))], Version: uint32(j)})
			}
			var ok []structs.MonitorMapEntry
			for _, x := range e {
				if len(ok) == 0 || ok[len(ok)-1].Position < x.Position {
					ok = append(ok, x)
				}
			}
			v.call("contact", "deep "+zc, func() (structs.Marshaller, error) {
				return v.tree.ContactMonitor(bg, &structs.ContactMonitorRequest{Last: last, Label: label, Entries: ok})
			})
		case 2:
			start, sc := hostilePos(r, w.n())
			if d := refDistinguished(w.ts(), w.cfg.RMW); len(d) > 0 {
				start, sc = d[r.Intn(len(d))], "distinguished"
			}
			v.call("init", "deep "+zc+" "+sc, func() (structs.Marshaller, error) {
				return v.tree.OwnerInit(bg, &structs.OwnerInitRequest{Last: last, Label: label, Start: start})
			})
			gv := uint32(have - 1)
			v.call("monitor", "deep "+zc+" "+sc, func() (structs.Marshaller, error) {
				return v.tree.OwnerMonitor(bg, &structs.OwnerMonitorRequest{Last: last, Label: label, Start: start, GreatestVersion: &gv})
			})
		case 3:
			gv := uint32(r.Intn(have))
			v.call("stream", "deep "+zc, func() (structs.Marshaller, error) {
				return v.answer(&structs.UpdateRequest{Last: last, Label: label, GreatestVersion: &gv})
			})
		}
	}
	v.finish()
}
