//go:build P17

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"

	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P17", Level: "exploration", Min: 100000,
		Rule: "encodings taken from real histories of every mode and suite and altered (bits, length fields, cuts, insertions, splices of two encodings), short random strings, and strings that claim more than they hold, given to every decoder; an evaluation is one string decoded, keyed by the decoder, how the string was made and whether it was accepted",
		Run:  runP17,
	})
}

func runP17(c *Ctx) {
	c.Each("altered", c.N(900, 40000), p17Altered)
	c.Each("random", c.N(1200, 40000), p17Random)
	c.Each("claims", c.N(900, 40000), p17Claims)
	c.Each("state", c.N(150, 6000), p17State)
}

// Bound on the memory allocated during one decoding of n bytes. Lists may
// start with room for some elements, at several levels of nesting.
func memBound(n int) uint64 { return 64<<10 + 300*uint64(n) }

// decode decodes a hostile string and checks what comes of it.
func decode(k *Case, c codec, pub *structs.PublicConfig, hasVersion bool, raw []byte, how string) {
	in := bytes.Clone(raw)
	buf := bytes.NewBuffer(in)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	x, err := c.dec(pub, hasVersion, buf)
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	if used > memBound(len(raw)) {
		k.Fail("decoding %d bytes as %s (%s) allocates %d bytes\n%.400x", len(raw), c.name, how, used, raw)
	}
	k.Eval("%s/%s/%v/%s", k.Name, c.name, err == nil, how)
	if !bytes.Equal(in, raw) {
		k.Fail("decoding %s changes its input", c.name)
	}
	if err != nil {
		if !(x == nil || reflect.ValueOf(x).IsNil()) {
			k.Count("structures returned with an error", 1)
		}
		return
	}
	if x == nil || reflect.ValueOf(x).IsNil() {
		k.Fail("decoding %s returns neither a structure nor an error", c.name)
	}
	consumed := len(raw) - buf.Len()
	out, err := enc(x)
	if err != nil {
		k.Fail("%s was decoded from %d bytes, but can't be encoded: %v", c.name, consumed, err)
	}
	same := bytes.Equal(out, raw[:consumed])
	if c.name == "ClientState" { // the log entries have no order
		same = sameMultiset(out, raw[:consumed])
	}
	if !same {
		k.Fail("%s was decoded from bytes other than its encoding (%s):\n%.600x\n%.600x", c.name, how, raw[:consumed], out)
	}
	y, err := c.dec(pub, hasVersion, bytes.NewBuffer(out))
	if err != nil || diff(x, y) != "" {
		k.Fail("%s encodes to something else: %v %s", c.name, err, diff(x, y))
	}
}

func sameMultiset(a, b []byte) bool {
	a, b = bytes.Clone(a), bytes.Clone(b)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return bytes.Equal(a, b)
}

// sample is an honest encoding.
type sample struct {
	c          codec
	hasVersion bool
	raw        []byte
}

// samples collects the encodings of everything in a random history.
func samples(w *World) (out []sample) {
	r := w.r
	add := func(x any, hasVersion bool) {
		if x == nil || reflect.ValueOf(x).IsNil() {
			return
		}
		raw, err := enc(x)
		if err != nil {
			return
		}
		c := codecOf(x)
		out = append(out, sample{c, hasVersion, raw})
		// parts
		switch x := x.(type) {
		case *structs.SearchResponse:
			for i := range x.BinaryLadder {
				out = append(out, sample{codecOf(&x.BinaryLadder[i]), false, mustMarshal(&x.BinaryLadder[i])})
			}
			out = append(out, sample{codecOf(&x.Search), false, mustMarshal(&x.Search)})
			out = append(out, sample{codecOf(&x.FullTreeHead), false, mustMarshal(&x.FullTreeHead)})
			out = append(out, sample{codecOf(&x.Value), false, mustMarshal(&x.Value)})
			for i := range x.Search.PrefixProofs {
				out = append(out, sample{codecOf(&x.Search.PrefixProofs[i]), false, mustMarshal(&x.Search.PrefixProofs[i])})
			}
		case *structs.UpdateResponse:
			for i := range x.Info {
				out = append(out, sample{codecOf(&x.Info[i]), false, mustMarshal(&x.Info[i])})
			}
		case *structs.ClientLabelState:
			if x.Owner != nil {
				out = append(out, sample{codecOf(x.Owner), false, mustMarshal(x.Owner)})
			}
			for i := range x.Versions {
				out = append(out, sample{codecOf(&x.Versions[i]), false, mustMarshal(&x.Versions[i])})
			}
		}
	}
	add(w.treeHead(), false)
	for _, e := range w.hist {
		if e.Update != nil && r.P(0.3) {
			out = append(out, sample{codecOf(&structs.AuditorUpdate{}), false, e.Update})
		}
	}
	for _, l := range sortedKeys(w.cur) {
		add(w.stored([]byte(l), 0), false)
	}
	for _, cl := range w.actors() {
		for i := 0; i < 5; i++ {
			o := op{kind: "greatest", label: w.names[r.Intn(len(w.names))]}
			if cl.size() > 0 {
				o = cl.randOp()
			}
			res := cl.do(o, w, tamper{})
			for _, x := range res.responses {
				add(x, o.kind == "fixed")
			}
			if s := cl.State(); s != nil {
				add(s, false)
				add(s.AuditorTreeHead, false)
			}
			for _, l := range sortedKeys(cl.st.labels) {
				add(cl.Label([]byte(l)), false)
			}
		}
		if req, _, err := cl.c.GreatestVersionSearch(w.names[0]); err == nil {
			add(req, false)
		}
		if req, _, err := cl.c.OwnerInit(w.names[0]); err == nil {
			add(req, false)
		}
		if req, _, err := cl.c.Monitor(); err == nil && req != nil {
			add(req, false)
		}
		for _, l := range sortedKeys(cl.st.labels) {
			if req, _, err := cl.c.Update([]byte(l), [][]byte{w.newValue()}); err == nil {
				add(req, false)
				add(w.managerReq(req), false)
			}
		}
	}
	return
}

func p17World(k *Case) *World {
	w := newWorld(k, genCfg(k.R))
	w.Grow(k.R.Range(2, 10))
	return w
}

func p17Altered(k *Case) {
	r := k.R
	w := p17World(k)
	all := samples(w)
	for i := 0; i < 150; i++ {
		s := all[r.Intn(len(all))]
		decode(k, s.c, w.pub, s.hasVersion, s.raw, "honest")
		raw := bytes.Clone(s.raw)
		how := ""
		for j := pick(r, 1, 1, 1, 2, 4); j > 0; j-- {
			how = ""
			if len(raw) == 0 {
				raw = r.Bytes(3)
			}
			at := r.Intn(len(raw))
			how += pick(r, "bit", "bit", "byte", "max", "max16", "max32", "zero", "cut", "insert", "delete", "splice", "tail", "plus")
			switch how {
			case "bit":
				raw[at] ^= 1 << r.Intn(8)
			case "byte":
				raw[at] = byte(r.Intn(256))
			case "plus":
				raw[at] += byte(pick(r, 1, 255, 2, 16))
			case "max":
				raw[at] = 0xff
			case "max16":
				copy(raw[at:], []byte{0xff, 0xff})
			case "max32":
				copy(raw[at:], []byte{0xff, 0xff, 0xff, 0xff})
			case "zero":
				clear(raw[at:min(len(raw), at+r.Range(1, 8))])
			case "cut":
				raw = raw[:at]
			case "insert":
				raw = append(raw[:at:at], append(r.Bytes(r.Range(1, 33)), raw[at:]...)...)
			case "delete":
				raw = append(raw[:at:at], raw[min(len(raw), at+r.Range(1, 33)):]...)
			case "splice":
				o := all[r.Intn(len(all))].raw
				if len(o) > 0 {
					raw = append(raw[:at:at], o[r.Intn(len(o)):]...)
				}
			case "tail":
				raw = append(raw, r.Bytes(r.Range(1, 40))...)
			}
		}
		c := s.c
		if r.P(0.1) {
			c = codecs[r.Intn(len(codecs))]
		}
		pub := w.pub
		if r.P(0.1) { // another mode than the encoding was made for
			p := *w.pub
			p.Mode = structs.DeploymentMode(r.Range(1, 3))
			pub = &p
			how = "mode"
		}
		decode(k, c, pub, s.hasVersion != r.P(0.1), raw, how)
	}
	if k.Idx < 2 {
		k.Sample("%d encodings of a history of %d entries", len(all), w.n())
	}
}

func p17Random(k *Case) {
	r := k.R
	for i := 0; i < 200; i++ {
		pub := &structs.PublicConfig{Config: structs.Config{Suite: suiteByID(pick(r, 1, 2)), Mode: structs.DeploymentMode(r.Range(1, 3))}}
		raw := r.Bytes(pick(r, 0, 1, 2, 3, 5, 10, 40, 100, 500))
		how := "random"
		switch r.Intn(3) {
		case 0:
			for j := range raw {
				raw[j] = byte(pick(r, 0, 0, 0, 1, 1, 2, 3, 255))
			}
			how = "small numbers"
		case 1:
			v := byte(pick(r, 0, 1, 2, 255))
			for j := range raw {
				raw[j] = v
			}
			how = "constant"
		}
		decode(k, codecs[r.Intn(len(codecs))], pub, r.P(0.5), raw, how)
	}
}

// p17Claims makes strings whose beginning is valid, that claim to go on for
// much longer than they do.
func p17Claims(k *Case) {
	r := k.R
	w := newWorld(k, genCfg(r))
	w.Grow(r.Range(1, 4))
	all := samples(w)
	for i := 0; i < 120; i++ {
		s := all[r.Intn(len(all))]
		if len(s.raw) == 0 {
			continue
		}
		at := r.Intn(len(s.raw))
		n := pick(r, 1, 2, 4, 8)
		raw := append(bytes.Clone(s.raw[:at]), bytes.Repeat([]byte{0xff}, n)...)
		raw = append(raw, s.raw[min(len(s.raw), at+n):min(len(s.raw), at+n+r.Intn(100))]...)
		if r.P(0.3) {
			raw = append(raw, make([]byte, r.Intn(3000))...)
		}
		decode(k, s.c, w.pub, s.hasVersion, raw, fmt.Sprintf("claim of %d bytes", n))
		// Repetition of the smallest possible elements.
		if r.P(0.2) {
			raw := append(bytes.Clone(s.raw[:at]), bytes.Repeat([]byte{byte(pick(r, 0, 1, 2, 3))}, r.Intn(2000))...)
			decode(k, s.c, w.pub, s.hasVersion, raw, "repetition")
		}
	}
}

// p17State starts clients, servers and auditors from stored data that was
// altered.
func p17State(k *Case) {
	r := k.R
	alter := func(raw []byte) []byte {
		raw = bytes.Clone(raw)
		for j := r.Range(1, 3); j > 0 && len(raw) > 0; j-- {
			at := r.Intn(len(raw))
			switch r.Intn(5) {
			case 0:
				raw[at] ^= 1 << r.Intn(8)
			case 1:
				raw[at] = 0xff
			case 2:
				raw = raw[:at]
			case 3:
				raw = append(raw, r.Bytes(r.Range(1, 9))...)
			case 4:
				clear(raw[at:min(len(raw), at+8)])
			}
		}
		return raw
	}
	l := newAuditedLog(k)
	store := &auditorStore{}
	for i := r.Range(1, 8); i > 0; i-- {
		l.advance()
		add, remove := l.plan()
		u := l.update(l.now, add, remove)
		l.apply(l.now, add, remove)
		a := newAuditor(k, l.pub, l.key, store)
		check(a.Process(u))
		must(a.Commit())
		decode(k, codecOf(&auditor.AuditorState{}), l.pub, false, store.state, "honest")
		for j := 0; j < 60; j++ {
			raw := alter(store.state)
			decode(k, codecOf(&auditor.AuditorState{}), l.pub, false, raw, "altered")
			st := &auditorStore{state: raw}
			_, err := auditor.NewAuditor(l.pub, l.key, st)
			k.Eval("start auditor/%v", err == nil)
			if len(raw) == 0 {
				continue
			}
			buf := bytes.NewBuffer(bytes.Clone(raw))
			if _, derr := auditor.NewAuditorState(l.cs, buf); (derr != nil || buf.Len() != 0) && err == nil {
				k.Fail("an auditor starts from a state that does not decode: %v, %d bytes left", derr, buf.Len())
			}
		}
	}
	// Clients.
	w := p17World(k)
	for _, cl := range w.actors() {
		for j := 0; j < 40 && cl.st.state != nil; j++ {
			bad := cl.clone()
			switch labels := sortedKeys(cl.st.labels); {
			case len(labels) > 0 && r.P(0.6):
				l := labels[r.Intn(len(labels))]
				rec := bad.st.labels[l]
				rec.raw = alter(rec.raw)
				bad.st.labels[l] = rec
			default:
				bad.st.state = alter(bad.st.state)
			}
			label := w.names[r.Intn(len(w.names))]
			// A state that decodes but makes no sense is not the subject here.
			_, _, err1 := bad.c.GreatestVersionSearch(label)
			_, _, err2 := bad.c.Update(label, nil)
			if _, err := structs.NewClientState(w.pub, bytes.NewBuffer(bytes.Clone(bad.st.state))); err != nil {
				_, _, err3 := bad.c.OwnerInit(label)
				_, _, err4 := bad.c.Monitor()
				if len(bad.st.state) > 0 && (err1 == nil || err2 == nil || err3 == nil || err4 == nil) {
					k.Fail("a client uses a state that does not decode (%v): %v, %v, %v, %v", err, err1, err2, err3, err4)
				}
			}
			k.Eval("start client/%v/%v", err1 == nil, err2 == nil)
		}
	}
}
