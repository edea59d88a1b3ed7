//go:build P16

package main

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P16", Level: "exploration", Min: 20000,
		Rule: "every kind of structure filled with random content in every mode and suite, with lists and strings of all lengths around those their length fields can hold; and every structure that real servers, clients and auditors exchange or store in random histories, with everything restarted from its stored state in between; an evaluation is one structure encoded and decoded, keyed by its kind, the mode and its size class",
		Run:  runP16,
	})
}

func runP16(c *Ctx) {
	c.Each("random", c.N(6000, 300000), p16Random)
	c.Each("limits", len(codecs)*3, p16Limits)
	c.Each("proofs", c.N(2000, 100000), p16Proofs)
	c.Each("real", c.N(250, 12000), p16Real)
	c.Each("restart", c.N(150, 6000), p16Restart)
	c.Each("early", c.N(40, 1000), p16Early)
	c.Each("auditor", c.N(150, 6000), p16Auditor)
}

// filler fills structures with random content that fits a configuration.
type filler struct {
	r          *Rand
	pub        *structs.PublicConfig
	hasVersion bool
	long       string // path of the field that gets `longLen` elements
	longLen    int
	fields     map[string]bool // every list found
}

// limits of the length fields. Lists that aren't here have four bytes.
var listLimit = map[string]int{
	"Label": 255, "Entries": 255, "Values": 255, "Info": 255, "BinaryLadder": 255, "GreatestVersions": 255,
	"OwnerInitResponse.BinaryLadder": 65535, "Timestamps": 255, "PrefixProofs": 255, "PrefixRoots": 255,
	"Inclusion.Elements": 65535, "InclusionProof.Elements": 65535, "Signature": 65535, "FullSubtrees": 255, "LogEntries": 255,
	"Added": 65535, "Removed": 65535, "AuditorState.Inserted": 65535,
}

func limitOf(path string) int {
	for _, n := range []int{2, 1} {
		parts := strings.Split(path, ".")
		if len(parts) >= n {
			if l, ok := listLimit[strings.Join(parts[len(parts)-n:], ".")]; ok {
				return l
			}
		}
	}
	return 1 << 32
}

func (f *filler) count(path string, max int) int {
	f.fields[path] = true
	if path == f.long {
		return f.longLen
	} else if f.long != "" {
		return min(max, 1)
	}
	switch {
	case f.r.P(0.25):
		return 0
	case f.r.P(0.05):
		return min(max, pick(f.r, 63, 64, 65, 255, 256, 300), limitOf(path))
	}
	return min(max, f.r.Range(1, 4))
}

func (f *filler) num(bits int) uint64 {
	switch f.r.Intn(4) {
	case 0:
		return uint64(f.r.Intn(5))
	case 1:
		return ^uint64(0) >> (64 - bits)
	case 2:
		return 1 << f.r.Intn(bits)
	}
	return f.r.Uint64() >> (64 - bits)
}

func (f *filler) fill(v reflect.Value, path string) {
	r := f.r
	cs := f.pub.Suite
	last := path[strings.LastIndex(path, ".")+1:]
	switch x := v.Addr().Interface().(type) {
	case *prefix.PrefixProof:
		p := must(randProof(r).decode(cs))
		*x = *p
		return
	case *structs.FullTreeHead:
		if r.P(0.7) {
			x.TreeHead = &structs.TreeHead{}
			f.fill(reflect.ValueOf(x.TreeHead).Elem(), path+".TreeHead")
			if f.pub.Mode == structs.ThirdPartyAuditing {
				x.AuditorTreeHead = &structs.AuditorTreeHead{}
				f.fill(reflect.ValueOf(x.AuditorTreeHead).Elem(), path+".AuditorTreeHead")
			}
		}
		return
	case *structs.UpdateSuffix:
		if f.pub.Mode == structs.ThirdPartyManagement {
			x.Signature = r.Bytes(f.count(path+".Signature", 65535))
		}
		return
	case *auditor.AuditorState:
		f.fill(reflect.ValueOf(&x.TreeHead).Elem(), path+".TreeHead")
		for n := x.TreeHead.TreeSize; n > 0; n &= n - 1 {
			x.FullSubtrees = append(x.FullSubtrees, r.Bytes(32))
		}
		if x.TreeHead.TreeSize == 0 {
			x.TreeHead.TreeSize = 1
			x.FullSubtrees = [][]byte{r.Bytes(32)}
		}
		for range bstFrontier(x.TreeHead.TreeSize) {
			x.Timestamps = append(x.Timestamps, f.num(64))
		}
		x.PrefixTree = r.Bytes(32)
		for i := f.count(path+".Inserted", 1<<20); i > 0; i-- {
			x.Inserted = append(x.Inserted, auditor.InsertedVrfOutput{Pos: f.num(64), VrfOutput: r.Bytes(32)})
		}
		return
	case *map[uint64]structs.LogEntry:
		*x = make(map[uint64]structs.LogEntry)
		for n := f.count(path, 1<<20); len(*x) < n; {
			e := structs.LogEntry{Timestamp: f.num(64), PrefixTree: r.Bytes(32)}
			(*x)[f.num(64)+uint64(r.Intn(1000))] = e
		}
		return
	case *[]byte:
		switch last {
		case "PrefixTree", "Commitment", "VrfOutput":
			*x = r.Bytes(32)
			if last == "Commitment" && !strings.Contains(path, "Added") && !strings.Contains(path, "Removed") && r.P(0.4) {
				*x = nil
			}
		case "Proof":
			*x = r.Bytes(cs.VrfProofSize())
		case "Opening":
			*x = r.Bytes(cs.CommitmentOpeningSize())
		default:
			*x = r.Bytes(f.count(path, limitOf(path)+1))
		}
		return
	case *[][]byte:
		n := f.count(path, 1<<20)
		for i := 0; i < n; i++ {
			*x = append(*x, r.Bytes(32))
		}
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		present := r.P(0.5)
		switch path {
		case "SearchResponse.Version":
			present = !f.hasVersion
		case "ClientState.AuditorTreeHead":
			present = f.pub.Mode == structs.ThirdPartyAuditing
		}
		if present {
			v.Set(reflect.New(v.Type().Elem()))
			f.fill(v.Elem(), path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			p := path + "." + sf.Name
			if sf.Anonymous {
				p = path
			}
			f.fill(v.Field(i), p)
		}
	case reflect.Slice:
		n := f.count(path, 1<<20)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			f.fill(v.Index(i), path+"[]")
		}
	case reflect.Uint64:
		v.SetUint(f.num(64))
	case reflect.Uint32:
		v.SetUint(f.num(32))
	case reflect.Int:
		v.SetInt(int64(f.num(64)))
		if last == "VerAtStarting" && r.P(0.5) {
			v.SetInt(int64(r.Intn(6)) - 1)
		}
	default:
		panic(fmt.Sprintf("harness: can't fill %s of kind %v", path, v.Kind()))
	}
}

func randProof(r *Rand) *wireProof {
	p := &wireProof{}
	for i := r.Intn(5); i > 0; i-- {
		w := wireResult{kind: byte(r.Range(1, 3)), depth: byte(r.Intn(256))}
		if w.kind == 2 {
			w.vrf, w.com = r.Bytes(32), r.Bytes(32)
		}
		p.results = append(p.results, w)
	}
	for i := r.Intn(6); i > 0; i-- {
		p.elements = append(p.elements, r.Bytes(32))
	}
	return p
}

// roundTrip encodes a structure, decodes it with something behind it, and
// compares.
func roundTrip(k *Case, pub *structs.PublicConfig, x any, hasVersion bool) {
	c := codecOf(x)
	raw := mustEnc(k, c, x)
	tail := k.R.Bytes(pick(k.R, 0, 0, 1, 5, 100))
	buf := bytes.NewBuffer(append(bytes.Clone(raw), tail...))
	y, err := c.dec(pub, hasVersion, buf)
	if err != nil {
		k.Fail("%s: what was encoded can not be decoded: %v\n%+v", c.name, err, x)
	} else if !bytes.Equal(buf.Bytes(), tail) {
		k.Fail("%s: decoding leaves %d bytes instead of the %d that follow", c.name, buf.Len(), len(tail))
	} else if d := diff(x, y); d != "" {
		k.Fail("%s: decoding gives something else: %s", c.name, d)
	}
	again := mustEnc(k, c, y)
	if len(again) != len(raw) {
		k.Fail("%s: encoding again gives %d bytes instead of %d", c.name, len(again), len(raw))
	}
	z, err := c.dec(pub, hasVersion, bytes.NewBuffer(again))
	if err != nil || diff(y, z) != "" {
		k.Fail("%s: decoding a second time fails: %v", c.name, err)
	}
	// A structure is never complete before its end.
	if len(raw) > 0 {
		cut := k.R.Intn(len(raw))
		if _, err := c.dec(pub, hasVersion, bytes.NewBuffer(bytes.Clone(raw[:cut]))); err == nil {
			k.Fail("%s: %d of %d bytes decode as well", c.name, cut, len(raw))
		}
	}
	k.Eval("%s/%s/%s/%d", k.Name, c.name, modeNames[pub.Mode], sizeClass(len(raw)))
}

func sizeClass(n int) int {
	c := 0
	for ; n > 0; n /= 4 {
		c++
	}
	return c
}

func mustEnc(k *Case, c codec, x any) []byte {
	raw, err := enc(x)
	if err != nil {
		k.Fail("%s can not be encoded: %v", c.name, err)
	}
	return raw
}

func p16Random(k *Case) {
	c := codecs[k.Idx%len(codecs)]
	f := &filler{r: k.R, pub: randConfig16(k.R), hasVersion: k.R.P(0.5), fields: make(map[string]bool)}
	for i := 0; i < 6; i++ {
		x := reflect.New(reflect.TypeOf(c.zero).Elem())
		f.fill(x.Elem(), c.name)
		roundTrip(k, f.pub, x.Interface(), f.hasVersion)
	}
}

func randConfig16(r *Rand) *structs.PublicConfig {
	return &structs.PublicConfig{Config: structs.Config{Suite: suiteByID(pick(r, 1, 2)), Mode: structs.DeploymentMode(r.Range(1, 3))}}
}

// p16Limits makes each list as long as its length field allows, and longer.
func p16Limits(k *Case) {
	c := codecs[k.Idx/3]
	pub := &structs.PublicConfig{Config: structs.Config{Suite: suiteByID(pick(k.R, 1, 2)), Mode: structs.DeploymentMode(1 + k.Idx%3)}}
	fields := make(map[string]bool)
	for i := 0; i < 30; i++ {
		f := &filler{r: k.R, pub: pub, fields: fields}
		f.fill(reflect.New(reflect.TypeOf(c.zero).Elem()).Elem(), c.name)
	}
	for _, path := range sortedKeys(fields) {
		limit := limitOf(path)
		lens := []int{limit, limit + 1, limit + 2}
		switch {
		case limit == 255:
			lens = append(lens, 256+k.R.Intn(200), 65536, 65536+k.R.Intn(200))
		case limit > 65535:
			lens = []int{65535, 65536, 70000}
		default:
			lens = append(lens, 65536+k.R.Intn(200))
		}
		for _, n := range lens {
			if n > 60000 && strings.HasSuffix(path, "PrefixProofs") {
				n = 600 // each is a structure by itself
			}
			var x reflect.Value
			got := -1
			for try := 0; try < 40 && got != n; try++ {
				x = reflect.New(reflect.TypeOf(c.zero).Elem())
				f := &filler{r: k.R, pub: pub, long: path, longLen: n, fields: make(map[string]bool)}
				f.fill(x.Elem(), c.name)
				if f.fields[path] {
					got = n
				}
			}
			if got != n {
				continue
			}
			if n <= limit {
				roundTrip(k, pub, x.Interface(), false)
				continue
			}
			if raw, err := enc(x.Interface()); err == nil {
				y, err := c.dec(pub, false, bytes.NewBuffer(raw))
				k.Fail("%s with %d elements in %s was encoded, to %d bytes (decoding: %v, %s)", c.name, n, path, len(raw), err, diff(x.Interface(), y))
			}
			k.Eval("limits/%s/%d", path, n)
		}
	}
}

func p16Proofs(k *Case) {
	r := k.R
	cs := suiteByID(pick(r, 1, 2))
	p := randProof(r)
	switch r.Intn(20) {
	case 0:
		for len(p.results) < 255 {
			p.results = append(p.results, wireResult{kind: byte(pick(r, 1, 3)), depth: byte(r.Intn(256))})
		}
	case 1:
		n := pick(r, 255, 256, 300, 65535)
		for len(p.elements) < n {
			p.elements = append(p.elements, make([]byte, 32))
		}
	}
	raw := p.encode()
	buf := bytes.NewBuffer(append(bytes.Clone(raw), 1, 2, 3))
	x, err := prefix.NewPrefixProof(cs, buf)
	k.Assert(err == nil, "a prefix proof does not decode: %v", err)
	k.Assert(bytes.Equal(buf.Bytes(), []byte{1, 2, 3}), "decoding a prefix proof leaves %d bytes instead of 3", buf.Len())
	k.Assert(len(x.Results) == len(p.results) && len(x.Elements) == len(p.elements), "a prefix proof lost something")
	for i, res := range x.Results {
		k.Assert(res.Inclusion() == (p.results[i].kind == 1) && res.Depth() == int(p.results[i].depth), "a result of a prefix proof has changed")
	}
	out, err := structs.Marshal(x)
	k.Assert(err == nil && bytes.Equal(out, raw), "a prefix proof changes when it is decoded and encoded")
	k.Eval("proofs/%d/%d", len(p.results), sizeClass(len(p.elements)))
	// too long
	if r.P(0.1) {
		y := prefix.PrefixProof{Results: x.Results, Elements: x.Elements}
		if len(x.Results) > 0 && r.P(0.5) {
			for len(y.Results) < 256 {
				y.Results = append(y.Results, x.Results[0])
			}
		} else {
			y.Elements = make([][]byte, 65536+r.Intn(3))
			for i := range y.Elements {
				y.Elements[i] = make([]byte, 32)
			}
		}
		if _, err := structs.Marshal(&y); err == nil {
			k.Fail("a prefix proof with %d results and %d elements was encoded", len(y.Results), len(y.Elements))
		}
		k.Eval("proofs/too long")
	}
}

// p16Real encodes and decodes everything that is exchanged and stored in a
// random history.
func p16Real(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.Life = pick(r, uint64(0), 0, 3*cfg.RMW)
	w := newWorld(k, cfg)
	w.Grow(r.Range(1, 10))
	for _, e := range w.hist {
		if e.Update != nil {
			u := must(structs.NewAuditorUpdate(w.cs, bytes.NewBuffer(e.Update)))
			roundTrip(k, w.pub, u, false)
		}
	}
	roundTrip(k, w.pub, w.treeHead(), false)
	for _, l := range sortedKeys(w.cur) {
		for v := range w.cur[l] {
			o := w.stored([]byte(l), uint32(v))
			roundTrip(k, w.pub, o, false)
			roundTrip(k, w.pub, &o.Value, false)
		}
	}
	actors := w.actors()
	for i := 0; i < 12; i++ {
		if r.P(0.3) {
			w.Grow(1)
		}
		cl := actors[r.Intn(len(actors))]
		o := cl.randOp2()
		cl.exchange(k, o)
		if s := cl.State(); s != nil {
			roundTrip(k, w.pub, s, false)
			h := structs.FullTreeHead{TreeHead: &s.TreeHead, AuditorTreeHead: s.AuditorTreeHead}
			roundTrip(k, w.pub, &h, false)
		}
		for _, l := range sortedKeys(cl.st.labels) {
			roundTrip(k, w.pub, cl.Label([]byte(l)), false)
		}
	}
}

// randOp2 is randOp for clients that may have nothing to do.
func (cl *Client) randOp2() op {
	if cl.size() == 0 {
		return op{kind: pick(cl.w.r, "greatest", "fixed"), label: cl.w.names[cl.w.r.Intn(len(cl.w.names))], ver: uint32(cl.w.r.Intn(3))}
	}
	return cl.randOp()
}

// exchange performs an operation, with the structures that the server and the
// client have made, before they are encoded, checked.
func (cl *Client) exchange(k *Case, o op) {
	w := cl.w
	w.use()
	switch o.kind {
	case "greatest", "fixed":
		ver := &o.ver
		if o.kind == "greatest" {
			ver = nil
		}
		req, _ := cl.searchReq(o.label, ver)
		roundTrip(k, w.pub, req, false)
		if res, err := w.tree.Search(bg, req); err == nil {
			roundTrip(k, w.pub, res, ver != nil)
			roundTrip(k, w.pub, &res.Search, false)
		}
	case "init":
		if req, _, err := cl.c.OwnerInit(o.label); err == nil {
			roundTrip(k, w.pub, req, false)
			if res, err := w.tree.OwnerInit(bg, req); err == nil {
				roundTrip(k, w.pub, res, false)
			}
		}
	case "monitor":
		cl.st.only = o.label
		req, _, err := cl.c.Monitor()
		cl.st.only = nil
		if err != nil || req == nil || reflect.ValueOf(req).IsNil() {
			break
		}
		roundTrip(k, w.pub, req, false)
		var res any
		switch req := req.(type) {
		case *structs.ContactMonitorRequest:
			res, err = w.tree.ContactMonitor(bg, req)
		case *structs.OwnerMonitorRequest:
			res, err = w.tree.OwnerMonitor(bg, req)
		}
		if err == nil {
			roundTrip(k, w.pub, res, false)
		}
	case "update":
		req, _, err := cl.c.Update(o.label, o.values)
		if err != nil {
			break
		}
		roundTrip(k, w.pub, req, false)
		if w.cfg.Mode == structs.ThirdPartyManagement {
			roundTrip(k, w.pub, w.managerReq(req), false)
		}
		// Existing versions the client does not know.
		quiet := *req
		quiet.Values = nil
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		ch, err := w.tree.Update(ctx, &quiet)
		if err != nil {
			break
		}
		for res := range ch {
			if res.Err != nil {
				break
			}
			roundTrip(k, w.pub, res.Out, false)
		}
	}
	cl.do(o, w, tamper{})
}

// p16Restart compares a client and a server that are restarted from what they
// stored, before every operation, with ones that never are.
func p16Restart(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.Life = pick(r, uint64(0), 0, 3*cfg.RMW)
	w := newWorld(k, cfg)
	w.Grow(r.Range(2, 8))
	cl := w.newClient()
	for i := 0; i < 10; i++ {
		if r.P(0.4) {
			w.Grow(1)
		}
		o := cl.randOp2()
		again := cl.clone()
		again.c = must(transparency.NewClient(w.pub, again.st))
		// Two servers: one that has been running, and one started from a copy
		// of the database.
		restarted := w.Clone()
		restarted.store = copyMem(w.mem())
		restarted.reload()
		if h, g := restarted.treeHead(), w.treeHead(); diff(h, g) != "" {
			k.Fail("a server that is restarted has another tree head: %s", diff(h, g))
		}
		if o.kind == "update" {
			o.values = nil // sequencing would make the two different
		}
		a := cl.do(o, w, tamper{})
		b := again.do(o, restarted, tamper{})
		if a.verified != b.verified || (a.err == nil) != (b.err == nil) || (a.srv == nil) != (b.srv == nil) {
			k.Fail("%s of %q after a restart: %v, without: %v", o.kind, o.label, b.outcome, a.outcome)
		}
		if s, t := cl.State(), again.State(); diff(s, t) != "" {
			k.Fail("the state after %s differs after a restart: %s", o.kind, diff(s, t))
		}
		for _, l := range sortedKeys(cl.st.labels) {
			s, t := cl.Label([]byte(l)), again.Label([]byte(l))
			if s == nil || t == nil || diff(sorted(s), sorted(t)) != "" {
				k.Fail("the label state after %s differs after a restart: %s", o.kind, diff(sorted(s), sorted(t)))
			}
		}
		k.Eval("restart/%s/%s/%v", o.kind, modeNames[w.cfg.Mode], a.ok())
	}
	// The server grows on after a restart exactly as it would have.
	if _, ok := w.store.(*memory.TransparencyStore); ok && cfg.Life == 0 {
		w.reload()
		w.Grow(2)
		w.inspect("after a restart", true)
		k.Eval("restart/grow")
	}
}

// p16Early restarts a server before every one of the first mutations, when
// there may be no tree head yet, and no auditor's tree head.
func p16Early(k *Case) {
	cfg := genCfg(k.R)
	cfg.Mode = structs.DeploymentMode(1 + k.Idx%3)
	w := newWorld(k, cfg)
	store := memory.NewTransparencyStore()
	var head *structs.TreeHead
	for i := 0; i < 6; i++ {
		tree, err := transparency.NewTree(w.priv, store, w.updates)
		if err != nil {
			k.Fail("mode %s: a server can't be restarted after %d mutations: %v", modeNames[cfg.Mode], i, err)
		}
		got := tree.TreeHead()
		if (got == nil) != (head == nil) || got != nil && diff(got, head) != "" {
			k.Fail("mode %s: a server restarted after %d mutations has tree head %+v, had %+v", modeNames[cfg.Mode], i, got, head)
		}
		w.setNow(w.now + uint64(k.R.Intn(1000)))
		label, val := []byte{'l', byte(i % 2)}, w.newValue()
		value := structs.UpdateValue{Value: val, UpdateSuffix: structs.UpdateSuffix{Signature: w.signLeaf(label, uint32(i/2), val)}}
		if _, err := tree.Mutate([]transparency.LabelValue{{Label: label, Value: value}}, nil); err != nil {
			k.Fail("mode %s: mutation after a restart: %v", modeNames[cfg.Mode], err)
		}
		head = tree.TreeHead()
		k.Assert(head != nil && head.TreeSize == uint64(i+1), "tree head %+v after %d mutations", head, i+1)
		k.Eval("early/%s/%d", modeNames[cfg.Mode], i)
	}
}

// sorted puts the parts of a label state that have no order in one.
func sorted(s *structs.ClientLabelState) *structs.ClientLabelState {
	out := clonePtr(s)
	if out == nil {
		return nil
	}
	sortBy(out.Versions, func(v structs.RetainedVersion) uint64 { return uint64(v.Version) })
	sortBy(out.Contact, func(v structs.MonitorMapEntry) uint64 { return v.Position })
	return out
}

func sortBy[T any](s []T, key func(T) uint64) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && key(s[j]) < key(s[j-1]); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// p16Auditor checks the state of an auditor in random histories.
func p16Auditor(k *Case) {
	r := k.R
	l := newAuditedLog(k)
	pub, key := l.pub, l.key
	store := &auditorStore{}
	for i := r.Range(1, 12); i > 0; i-- {
		l.advance()
		add, remove := l.plan()
		u := l.update(l.now, add, remove)
		l.apply(l.now, add, remove)
		roundTrip(k, pub, u, false)
		a := newAuditor(k, pub, key, store)
		if err := a.Process(u); err != nil {
			k.Fail("an auditor that was restarted rejects an honest update: %v", err)
		}
		head, err := a.Commit()
		k.Assert(err == nil, "commit failed: %v", err)
		roundTrip(k, pub, head, false)
		buf := bytes.NewBuffer(bytes.Clone(store.state))
		s, err := auditor.NewAuditorState(l.cs, buf)
		k.Assert(err == nil && buf.Len() == 0, "the stored state of an auditor does not decode: %v, %d bytes left", err, buf.Len())
		roundTrip(k, pub, s, false)
		k.Assert(s.TreeHead.TreeSize == l.n(), "the stored state is for %d entries instead of %d", s.TreeHead.TreeSize, l.n())
		k.Assert(diff(&s.TreeHead, head) == "", "the stored tree head is another one")
	}
}
