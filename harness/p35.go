//go:build P35

package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strings"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P35", Level: "exploration", Min: 15000,
		Rule: "random histories of logs in every mode whose labels and values are long random strings, so that they, the openings, the signatures of values, the VRF proofs and the private keys can be recognised wherever they occur; every response to clients and to hostile requests, every auditor update, the public configuration and the database are searched for all of them; openings of all versions of two logs with the same keys and history, before and after restarts and in other processes, are compared with each other bit by bit; an evaluation is one output searched or one opening compared, keyed by operation, mode, tree size and what it may reveal",
		Run:  runP35,
	})
	helpers["p35"] = p35Helper
}

func runP35(c *Ctx) {
	c.Each("served", c.N(240, 8000), p35Served)
	c.Each("openings", c.N(24, 500), p35Openings)
	c.Each("processes", c.N(4, 40), p35Processes)
}

// secret is something that may only be revealed on request.
type secret struct {
	kind  string
	label string
	ver   uint32
	raw   []byte
}

// p35Book knows all the secrets of a log there ever were.
type p35Book struct {
	w       *World
	secrets []secret
	have    map[string]bool
	keys    []secret
	audited int // auditor updates that were searched
}

func (b *p35Book) add(kind, label string, ver uint32, raw []byte) {
	if len(raw) < 12 || bytes.Count(raw, []byte{0}) == len(raw) {
		return
	}
	id := fmt.Sprintf("%s/%x/%d/%x", kind, label, ver, raw)
	if !b.have[id] {
		b.have[id] = true
		b.secrets = append(b.secrets, secret{kind, label, ver, raw})
	}
}

// learn records what is new since the last time.
func (b *p35Book) learn() {
	w := b.w
	for l, vs := range w.cur {
		b.add("label", l, 0, []byte(l))
		for i, v := range vs {
			b.add("value", l, uint32(i), v.Value)
			b.add("signature", l, uint32(i), v.Sig)
			b.add("opening", l, uint32(i), w.stored([]byte(l), uint32(i)).Opening)
		}
		for i := 0; i <= len(vs)+1; i++ {
			_, proof := w.vrfOf([]byte(l), uint32(i))
			b.add("VRF proof", l, uint32(i), proof)
		}
	}
}

// scan searches an output; may tells what it may reveal.
func (b *p35Book) scan(what string, raw []byte, may func(s secret) bool) {
	k := b.w.k
	var allowed map[string]bool
	for _, s := range b.secrets {
		if !bytes.Contains(raw, s.raw) || may(s) {
			continue
		}
		// The same value may belong to several versions.
		if allowed == nil {
			allowed = make(map[string]bool)
			for _, t := range b.secrets {
				if may(t) {
					allowed[string(t.raw)] = true
				}
			}
		}
		if !allowed[string(s.raw)] {
			k.Fail("%s reveals the %s of version %d of label %x", what, s.kind, s.ver, s.label)
		}
	}
	for _, s := range b.keys {
		if bytes.Contains(raw, s.raw) {
			k.Fail("%s reveals %s", what, s.kind)
		}
	}
}

func p35World(k *Case) (*World, *p35Book) {
	r := k.R
	cfg := genCfg(r)
	if r.P(0.5) {
		cfg.Life = 0
	}
	w := newWorld(k, cfg)
	w.names = nil
	for i := r.Range(2, 5); i > 0; i-- {
		w.names = append(w.names, r.Bytes(r.Range(16, 60)))
	}
	var last []byte
	w.genValue = func() []byte {
		if last == nil || !r.P(0.1) {
			last = r.Bytes(r.Range(20, 80))
		}
		return last
	}
	b := &p35Book{w: w, have: make(map[string]bool)}
	key := func(kind string) []byte {
		raw := keyBytes(r)
		exp := sha512.Sum512(raw)
		for _, x := range [][]byte{raw[:16], raw[16:], exp[:16], exp[16:32], exp[32:48]} {
			rev := bytes.Clone(x)
			slices.Reverse(rev)
			b.keys = append(b.keys, secret{kind: kind, raw: x}, secret{kind: kind, raw: rev})
		}
		return raw
	}
	w.priv.SignatureKey = must(w.cs.ParseSigningPrivateKey(key("a part of the tree head signing key")))
	w.priv.VrfKey = must(w.cs.ParseVRFPrivateKey(key("a part of the VRF key")))
	if w.leafKey != nil {
		w.leafKey = must(w.cs.ParseSigningPrivateKey(key("a part of the leaf signing key")))
		w.priv.LeafPublicKey = w.leafKey.Public()
	}
	w.pub = w.priv.Public()
	w.reload()
	return w, b
}

// step adds a log entry.
func (b *p35Book) step() {
	w, r := b.w, b.w.r
	w.advance()
	var rm [][]byte
	if c := w.removable(); len(c) > 0 && r.P(0.15) {
		rm = append(rm, c[r.Intn(len(c))])
	}
	adds := w.genAdds()
	w.MustMutate(adds, rm)
	if len(rm) > 0 {
		l := string(rm[0])
		// What was removed is gone for good.
		kept := b.secrets
		b.secrets = nil
		b.have = make(map[string]bool)
		b.learn()
		dump := p35Dump(w)
		for _, s := range kept {
			if s.label == l && s.kind != "label" && s.kind != "VRF proof" && !b.have[fmt.Sprintf("%s/%x/%d/%x", s.kind, s.label, s.ver, s.raw)] {
				shared := false
				for _, t := range b.secrets {
					shared = shared || bytes.Equal(t.raw, s.raw)
				}
				if !shared && bytes.Contains(dump, s.raw) {
					w.k.Fail("database still has the %s of version %d of label %x after its removal", s.kind, s.ver, l)
				}
			}
		}
		for _, s := range kept {
			b.add(s.kind, s.label, s.ver, s.raw)
		}
		w.k.Count("removals", 1)
	}
	b.learn()
	for ; b.audited < len(w.hist); b.audited++ {
		if raw := w.hist[b.audited].Update; raw != nil {
			b.scan(fmt.Sprintf("auditor update %d", b.audited), raw, func(secret) bool { return false })
			w.k.Eval("audit/%d/%d/%d", w.cfg.Mode, b.audited, len(raw))
		}
	}
}

// p35Dump is everything that the database contains.
func p35Dump(w *World) []byte {
	var out bytes.Buffer
	s := w.mem()
	out.Write(s.TreeHead)
	out.Write(s.Auditor)
	for _, v := range s.Versions {
		out.Write(v)
	}
	for _, v := range s.Indices {
		out.Write(v)
	}
	for _, v := range s.LogEntries {
		out.Write(v)
	}
	for _, v := range s.LogStore().(*memory.LogStore).Data {
		out.Write(v)
	}
	for _, v := range s.PrefixStore().(*memory.PrefixStore).Data {
		out.Write(v)
	}
	return out.Bytes()
}

func p35Served(k *Case) {
	r := k.R
	w, b := p35World(k)
	for i := r.Range(3, 12); i > 0; i-- {
		b.step()
	}
	clients := w.actors()
	for i := r.Range(10, 30); i > 0; i-- {
		if r.P(0.3) {
			b.step()
		}
		if r.P(0.35) {
			p35Request(k, b)
			continue
		}
		cl := clients[r.Intn(len(clients))]
		o := cl.randOp()
		known := -1
		if s := cl.Label(o.label); s != nil && s.Owner != nil {
			known = s.Owner.VerAtStarting + len(s.Owner.UpcomingVers)
		}
		res := cl.do(o, w, tamper{})
		b.learn()
		for _, x := range res.responses {
			b.response(o.kind, o.label, o.ver, known, x)
		}
	}
	dump := p35Dump(w)
	for _, s := range b.keys {
		k.Assert(!bytes.Contains(dump, s.raw), "database has %s", s.kind)
	}
	b.scan("public configuration", mustMarshal(w.pub), func(secret) bool { return false })
	k.Eval("database/%d/%d", w.cfg.Mode, len(dump))
}

// response searches a response to a request about a label.
func (b *p35Book) response(kind string, label []byte, ver uint32, known int, x any) {
	w, k := b.w, b.w.k
	l := string(label)
	raw := mustMarshal(x.(structs.Marshaller))
	target, ladder := -1, map[uint32]bool{}
	switch kind {
	case "fixed":
		target = int(ver)
	case "greatest":
		target = max(0, len(w.cur[l])-1)
	}
	if target >= 0 {
		for _, v := range ladderOf(uint32(target)) {
			ladder[v] = true
		}
		if target >= len(w.cur[l]) {
			target = -1
		}
	}
	revealed := 0
	may := func(s secret) bool {
		if s.label != l {
			return false
		}
		out := false
		switch s.kind {
		case "label":
			out = true
		case "VRF proof":
			out = kind != "monitor" && (ladder[s.ver] || kind == "init" || kind == "update")
		default:
			if kind == "update" {
				out = int(s.ver) > known
			} else {
				out = target >= 0 && int(s.ver) == target
			}
			// Not what it was before it was removed and created again.
			out = out && int(s.ver) < len(w.cur[l]) && b.present(s)
		}
		if out {
			revealed++
		}
		return out
	}
	b.scan(fmt.Sprintf("response to request (%s, version %d of %x)", kind, ver, l), raw, may)
	k.Eval("%s/%d/%d/%d/%d/%d", kind, w.cfg.Mode, w.n(), target, revealed, len(raw))
	k.Count("responses: "+kind, 1)
}

// present tells whether this belongs to a version that exists.
func (b *p35Book) present(s secret) bool {
	v := b.w.cur[s.label][s.ver]
	switch s.kind {
	case "value":
		return bytes.Equal(v.Value, s.raw)
	case "signature":
		return bytes.Equal(v.Sig, s.raw)
	}
	return bytes.Equal(b.w.stored([]byte(s.label), s.ver).Opening, s.raw)
}

// p35Request sends a request that no client would send.
func p35Request(k *Case, b *p35Book) {
	w, r := b.w, b.w.r
	l := w.names[r.Intn(len(w.names))]
	if r.P(0.2) {
		// Similar to an existing label.
		switch l = bytes.Clone(l); r.Intn(3) {
		case 0:
			l = l[:len(l)-r.Range(1, 3)]
		case 1:
			l = append(l, byte(r.Intn(3)))
		case 2:
			l[r.Intn(len(l))] ^= 1 << r.Intn(8)
		}
	}
	greatest := len(w.cur[string(l)]) - 1
	ver := uint32(max(0, greatest+r.Range(-3, 3)))
	var last *uint64
	if r.P(0.5) {
		last = ptr(uint64(r.Range(1, int(w.n()))))
	}
	entries := func() (out []structs.MonitorMapEntry) {
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			out = append(out, structs.MonitorMapEntry{Position: uint64(r.Intn(int(w.n()))), Version: uint32(max(0, greatest-n+1+i+r.Intn(2)))})
		}
		return
	}
	var (
		res  structs.Marshaller
		err  error
		kind = pick(r, "fixed", "fixed", "greatest", "monitor", "monitor", "init", "update")
	)
	known := -1
	switch kind {
	case "fixed":
		res, err = w.Search(&structs.SearchRequest{Last: last, Label: l, Version: &ver})
	case "greatest":
		res, err = w.Search(&structs.SearchRequest{Last: last, Label: l})
	case "monitor":
		if r.P(0.5) {
			res, err = w.ContactMonitor(&structs.ContactMonitorRequest{Last: last, Label: l, Entries: entries()})
		} else {
			res, err = w.OwnerMonitor(&structs.OwnerMonitorRequest{Last: last, Label: l, Entries: entries(), Start: uint64(r.Intn(int(w.n()))), GreatestVersion: pick(r, nil, &ver)})
		}
	case "init":
		d := refDistinguished(w.ts(), w.cfg.RMW)
		if len(d) == 0 {
			return
		}
		res, err = w.OwnerInit(&structs.OwnerInitRequest{Last: last, Label: l, Start: d[r.Intn(len(d))]})
	case "update":
		req := &structs.UpdateRequest{Last: last, Label: l}
		if greatest >= 0 && r.P(0.7) {
			known = r.Intn(greatest + 1)
			req.GreatestVersion = ptr(uint32(known))
		}
		list, err := w.Update(req, nil)
		for _, x := range list {
			b.response(kind, l, ver, known, x)
		}
		k.Count("error", b2i(err != nil))
		return
	}
	if err != nil {
		k.Count("error", 1)
		return
	}
	b.response(kind, l, ver, known, res)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// p35Openings compares the openings of two logs that have everything else in common.
func p35Openings(k *Case) {
	r := k.R
	cfg := genCfg(r)
	w := newWorld(k, cfg)
	w2 := newWorld(k, cfg)
	w2.priv, w2.pub, w2.leafKey, w2.audKey = w.priv, w.pub, w.leafKey, w.audKey
	w2.reload()
	w2.names = w.names
	type where struct {
		log int
		l   string
		ver int
	}
	seen := make(map[string]where)
	var all [][]byte
	collect := func(i int, x *World) {
		for l, vs := range x.cur {
			for v := range vs {
				if uint64(vs[v].Pos) != x.n()-1 {
					continue
				}
				o := x.stored([]byte(l), uint32(v)).Opening
				k.Assert(len(o) == x.cs.CommitmentOpeningSize(), "opening of %d bytes", len(o))
				if p, ok := seen[string(o)]; ok {
					k.Fail("version %d of %q in log %d has the same opening as version %d of %q in log %d", v, l, i, p.ver, p.l, p.log)
				}
				seen[string(o)] = where{i, l, v}
				all = append(all, o)
				k.Eval("opening/%d/%d/%d", cfg.Mode, i, v)
			}
		}
	}
	for len(all) < 400 {
		w.advance()
		adds := w.genAdds()
		if r.P(0.2) { // the same value for all
			for i := range adds {
				adds[i].Value = adds[0].Value
			}
		}
		var rm [][]byte
		if c := w.removable(); len(c) > 0 && r.P(0.1) {
			rm = append(rm, c[r.Intn(len(c))])
		}
		w.MustMutate(adds, rm)
		w2.setNow(w.now)
		w2.MustMutate(adds, rm)
		collect(0, w)
		collect(1, w2)
		if r.P(0.2) {
			w.reload()
		}
		if r.P(0.2) {
			w2.reload()
		}
	}
	p35Bits(k, all)

	// Many more are different from each other, too.
	have := make(map[string]bool)
	for i := 0; i < 50000; i++ {
		o := commitments.GenerateOpening(w.cs)
		if have[string(o)] || seen[string(o)] != (where{}) {
			k.Fail("the same opening was generated twice")
		}
		have[string(o)] = true
	}
}

// p35Bits makes sure that no bit depends on another one in an obvious way.
func p35Bits(k *Case, all [][]byte) {
	bits := 8 * len(all[0])
	column := make([]string, bits)
	for i := range column {
		var col, inv strings.Builder
		ones := 0
		for _, o := range all {
			x := bitAt(o, i)
			ones += x
			col.WriteByte('0' + byte(x))
			inv.WriteByte('1' - byte(x))
		}
		k.Assert(ones > len(all)/5 && ones < len(all)*4/5, "bit %d of openings is set in %d of %d cases", i, ones, len(all))
		column[i] = col.String()
		for j := 0; j < i; j++ {
			k.Assert(column[j] != column[i] && column[j] != inv.String(), "bits %d and %d of all openings are related", j, i)
		}
		k.Eval("bit/%d/%d", bits, i)
	}
	for i := 1; i < len(all); i++ {
		same := 0
		for j := 0; j < bits; j++ {
			same += 1 - bitAt(all[i], j) ^ bitAt(all[i-1], j)
		}
		k.Assert(same > 0 && same < bits, "openings follow from each other")
	}
}

// p35Helper prints the openings of a small log.
func p35Helper() {
	suite := suiteByID(0)
	if os.Getenv("KCHECK_P35") == "1" {
		suite = suiteByID(1)
	}
	for i := 0; i < 20; i++ {
		fmt.Println(hex.EncodeToString(commitments.GenerateOpening(suite)))
	}
}

// p35Processes compares what different processes, started at the same time, generate.
func p35Processes(k *Case) {
	seen := make(map[string]bool)
	var cmds []*exec.Cmd
	var outs []*bytes.Buffer
	for i := 0; i < 6; i++ {
		cmd := exec.Command(must(os.Executable()))
		cmd.Env = append(os.Environ(), "KCHECK_HELPER=p35", fmt.Sprint("KCHECK_P35=", k.Idx%2))
		out := &bytes.Buffer{}
		cmd.Stdout = out
		check(cmd.Start())
		cmds, outs = append(cmds, cmd), append(outs, out)
	}
	for i, cmd := range cmds {
		check(cmd.Wait())
		lines := strings.Fields(outs[i].String())
		k.Assert(len(lines) == 20, "harness: helper printed %d lines", len(lines))
		for _, l := range lines {
			k.Assert(!seen[l], "two processes generate the same opening")
			seen[l] = true
			k.Eval("process/%d/%d", k.Idx%2, i)
		}
	}
}
