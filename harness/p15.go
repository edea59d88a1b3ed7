//go:build P15

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"

	"crypto/elliptic"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P15", Level: "exploration", Min: 20000, RaceGroup: "together",
		Rule: "structures that differ in one field, or whose fields are cut differently from the same bytes, in every pair of positions; signatures over each of them verified against all the others; keys, configurations and structures are used by several goroutines at once under the race detector; real servers and clients whose configuration, stored values or tree heads differ in one field; an evaluation is one pair of different statements compared, keyed by the kind of statement and the field in which they differ",
		Run:  runP15,
	})
}

func runP15(c *Ctx) {
	c.Each("encode", c.N(600, 30000), p15Encode)
	c.Each("commit", c.N(400, 20000), p15Commit)
	for s := 1; s <= 2; s++ {
		c.Each(fmt.Sprintf("sign%d", s), c.N(300, 15000), func(k *Case) { p15Sign(k, s) })
	}
	c.Each("together", c.N(48, 1000), p15Together)
	c.Each("config", c.N(240, 10000), p15Config)
	c.Each("stored", c.N(200, 10000), p15Stored)
	c.Each("heads", c.N(240, 10000), p15Heads)
	c.Each("openings", c.N(60, 2000), p15Openings)
}

// statement is something that is committed to, put in the VRF or signed.
type statement struct {
	what  string // which of the fields differs from the first one
	value any    // comparable description
	enc   []byte
}

// distinct checks that different statements have different encodings.
func distinct(k *Case, kind string, all []statement) {
	seen := make(map[string]statement)
	for _, s := range all {
		if o, ok := seen[string(s.enc)]; ok && o.value != s.value {
			k.Fail("%s: %v and %v are both encoded as %x", kind, o.value, s.value, s.enc)
		}
		for _, o := range all {
			if o.value == s.value && !bytes.Equal(o.enc, s.enc) {
				k.Fail("%s: %v has two encodings: %x and %x", kind, o.value, o.enc, s.enc)
			}
		}
		seen[string(s.enc)] = s
		k.Eval("encode/%s/%s", kind, s.what)
	}
	k.Count("encoded statements compared", len(all)*(len(all)-1)/2)
}

// cuts are ways of cutting the same bytes into a label, a version and a value,
// with everything that a naive encoding may confuse.
func cuts(r *Rand) (out []lvv) {
	raw := r.Bytes(r.Range(6, 40))
	if r.P(0.5) {
		for i := range raw {
			raw[i] = byte(r.Intn(3)) // many coincidences
		}
	}
	base := lvv{string(raw[:r.Intn(len(raw)-4)]), binary.BigEndian.Uint32(raw[len(raw)-4:]), ""}
	base.value = string(raw[len(base.label):])
	out = append(out, base)
	for i := 0; i+4 <= len(raw); i++ {
		out = append(out, lvv{string(raw[:i]), binary.BigEndian.Uint32(raw[i:]), string(raw[i+4:])})
	}
	add := func(l string, v uint32, x string) { out = append(out, lvv{l, v, x}) }
	add(base.label+"\x00", base.ver, base.value)
	add("\x00"+base.label, base.ver, base.value)
	add(base.label, base.ver, base.value+"\x00")
	add(base.label, base.ver, "\x00"+base.value)
	add(base.label, base.ver+1, base.value)
	add(base.label, base.ver<<8, base.value)
	add(base.label, base.ver>>8, base.value)
	add(base.label, base.ver^1<<31, base.value)
	add("", base.ver, base.label+base.value)
	add(base.label, base.ver, "")
	long := string(bytes.Repeat([]byte{7}, 255))
	add(long, base.ver, base.value)
	add(long[:254], base.ver, base.value)
	add(base.label, base.ver, string(bytes.Repeat([]byte{7}, 256)))
	add(base.label, base.ver, string(bytes.Repeat([]byte{7}, 65536)))
	add(base.label, base.ver, string(bytes.Repeat([]byte{7}, 65537)))
	flip := []byte(base.value)
	if len(flip) > 0 {
		flip[r.Intn(len(flip))] ^= 1 << r.Intn(8)
		add(base.label, base.ver, string(flip))
	}
	return
}

type lvv struct {
	label string
	ver   uint32
	value string
}

func (x lvv) String() string {
	if len(x.value) > 50 {
		return fmt.Sprintf("(%x, %d, %d bytes)", x.label, x.ver, len(x.value))
	}
	return fmt.Sprintf("(%x, %d, %x)", x.label, x.ver, x.value)
}

func p15Encode(k *Case) {
	r := k.R
	lvvs := cuts(r)
	var vrf, com, comSig, upd []statement
	pub := randConfig(r)
	for _, x := range lvvs {
		vrf = append(vrf, statement{"label or version", fmt.Sprintf("%x/%d", x.label, x.ver), mustMarshal(&structs.VrfInput{Label: []byte(x.label), Version: x.ver})})
		cv := &structs.CommitmentValue{Label: []byte(x.label), Version: x.ver, Update: structs.UpdateValue{Value: []byte(x.value)}}
		com = append(com, statement{"label, version or value", x, mustMarshal(cv)})
		// The end of the value moved into the signature.
		for _, n := range []int{0, 1, 2, 4, 64} {
			if n > len(x.value) || len(x.value) > 1000 {
				continue
			}
			v, s := x.value[:len(x.value)-n], x.value[len(x.value)-n:]
			cv := &structs.CommitmentValue{Label: []byte(x.label), Version: x.ver, Update: structs.UpdateValue{Value: []byte(v), UpdateSuffix: structs.UpdateSuffix{Signature: []byte(s)}}}
			comSig = append(comSig, statement{"signature", fmt.Sprintf("%v+%x", lvv{x.label, x.ver, v}, s), mustMarshal(cv)})
		}
		upd = append(upd, statement{"label, version or value", x, mustMarshal(&structs.UpdateTBS{Config: pub, Label: []byte(x.label), Version: x.ver, Value: []byte(x.value)})})
	}
	distinct(k, "VRF input", vrf)
	distinct(k, "commitment value", com)
	distinct(k, "commitment value with signature", comSig)
	distinct(k, "label value to be signed", upd)

	// The same with different configurations.
	var cfgs, heads, auds []statement
	root := r.Bytes(32)
	size, ts := uint64(r.Intn(100)), uint64(r.Intn(100))
	for i, alt := range altConfigs(r, pub) {
		id := alt.key()
		cfgs = append(cfgs, statement{alt.what, id, mustMarshal(alt.pub)})
		h := &structs.TreeHeadTBS{Config: alt.pub, TreeSize: size, Root: root}
		heads = append(heads, statement{alt.what, id, mustMarshal(h)})
		a := &structs.AuditorTreeHeadTBS{Config: alt.pub, TreeSize: size, Timestamp: ts, Root: root}
		auds = append(auds, statement{alt.what, id, mustMarshal(a)})
		if i > 0 {
			continue
		}
		for j := 0; j < 10; j++ {
			s2, t2, r2 := size, ts, root
			switch j {
			case 0:
				s2++
			case 1:
				t2++
			case 2:
				s2, t2 = ts, size
			case 3:
				r2 = bytes.Clone(root)
				r2[r.Intn(32)] ^= 1 << r.Intn(8)
			case 4:
				s2 += 1 << 32
			case 5:
				t2 += 1 << 32
			case 6:
				s2 <<= 8
			case 7:
				t2 <<= 8
			case 8:
				s2 += 1 << 63
			}
			heads = append(heads, statement{"tree head", fmt.Sprintf("%s %d %x", id, s2, r2), mustMarshal(&structs.TreeHeadTBS{Config: alt.pub, TreeSize: s2, Root: r2})})
			auds = append(auds, statement{"auditor head", fmt.Sprintf("%s %d %d %x", id, s2, t2, r2), mustMarshal(&structs.AuditorTreeHeadTBS{Config: alt.pub, TreeSize: s2, Timestamp: t2, Root: r2})})
		}
	}
	heads, auds = heads[1:], auds[1:] // given again as the unaltered one of the list
	distinct(k, "configuration", cfgs)
	distinct(k, "tree head to be signed", heads)
	distinct(k, "auditor tree head to be signed", auds)
	if k.Idx < 2 {
		k.Sample("%d label values, %d configurations", len(lvvs), len(cfgs))
	}
}

func randConfig(r *Rand) *structs.PublicConfig {
	cs := suiteByID(pick(r, 1, 2))
	priv := structs.PrivateConfig{SignatureKey: genSigningKey(r, cs), VrfKey: must(cs.ParseVRFPrivateKey(keyBytes(r))), Config: structs.Config{
		Suite: cs, Mode: structs.DeploymentMode(r.Range(1, 3)), MaxAhead: uint64(r.Intn(5)), MaxBehind: uint64(r.Intn(5)),
		ReasonableMonitoringWindow: uint64(r.Intn(5)), MaximumLifetime: pick(r, uint64(0), 0, 7, 1<<40),
	}}
	switch priv.Mode {
	case structs.ThirdPartyManagement:
		priv.LeafPublicKey = genSigningKey(r, cs).Public()
	case structs.ThirdPartyAuditing:
		priv.MaxAuditorLag, priv.AuditorStartPos = uint64(r.Intn(5)), uint64(r.Intn(5))
		priv.AuditorPublicKey = genSigningKey(r, cs).Public()
	}
	return priv.Public()
}

type altConfig struct {
	what string
	pub  *structs.PublicConfig
}

func (a altConfig) key() string {
	p := a.pub
	out := fmt.Sprintf("%d %d sig=%x vrf=%x ahead=%d behind=%d rmw=%d life=%d", p.Suite.Id(), p.Mode, p.SignatureKey.Bytes(), p.VrfKey.Bytes(), p.MaxAhead, p.MaxBehind, p.ReasonableMonitoringWindow, p.MaximumLifetime)
	switch p.Mode {
	case structs.ThirdPartyManagement:
		out += fmt.Sprintf(" leaf=%x", p.LeafPublicKey.Bytes())
	case structs.ThirdPartyAuditing:
		out += fmt.Sprintf(" aud=%x lag=%d pos=%d", p.AuditorPublicKey.Bytes(), p.MaxAuditorLag, p.AuditorStartPos)
	}
	return out
}

// altConfigs returns the configuration itself and others that differ from it
// in one field, or in the place where a number stands.
func altConfigs(r *Rand, pub *structs.PublicConfig) []altConfig {
	out := []altConfig{{"none", pub}}
	alt := func(what string, f func(p *structs.PublicConfig)) {
		p := *pub
		f(&p)
		a := altConfig{what, &p}
		if a.key() != out[0].key() {
			out = append(out, a)
		}
	}
	cs := pub.Suite
	other := suiteByID(3 - int(cs.Id()))
	alt("suite", func(p *structs.PublicConfig) { p.Suite = other })
	alt("signature key", func(p *structs.PublicConfig) { p.SignatureKey = genSigningKey(r, cs).Public() })
	alt("VRF key", func(p *structs.PublicConfig) { p.VrfKey = must(cs.ParseVRFPrivateKey(keyBytes(r))).PublicKey() })
	num := func(what string, f func(p *structs.PublicConfig) *uint64) {
		alt(what, func(p *structs.PublicConfig) { *f(p)++ })
		alt(what, func(p *structs.PublicConfig) { *f(p) -= 1 })
		alt(what, func(p *structs.PublicConfig) { *f(p) += 1 << r.Intn(64) })
		alt(what, func(p *structs.PublicConfig) { *f(p) <<= 8 })
		alt(what, func(p *structs.PublicConfig) { *f(p) = 0 })
	}
	ahead := func(p *structs.PublicConfig) *uint64 { return &p.MaxAhead }
	behind := func(p *structs.PublicConfig) *uint64 { return &p.MaxBehind }
	rmw := func(p *structs.PublicConfig) *uint64 { return &p.ReasonableMonitoringWindow }
	life := func(p *structs.PublicConfig) *uint64 { return &p.MaximumLifetime }
	lag := func(p *structs.PublicConfig) *uint64 { return &p.MaxAuditorLag }
	pos := func(p *structs.PublicConfig) *uint64 { return &p.AuditorStartPos }
	nums := []func(p *structs.PublicConfig) *uint64{ahead, behind, rmw, life}
	num("MaxAhead", ahead)
	num("MaxBehind", behind)
	num("ReasonableMonitoringWindow", rmw)
	num("MaximumLifetime", life)
	switch pub.Mode {
	case structs.ContactMonitoring:
		alt("mode", func(p *structs.PublicConfig) {
			p.Mode, p.LeafPublicKey = structs.ThirdPartyManagement, p.SignatureKey
		})
		alt("mode", func(p *structs.PublicConfig) {
			p.Mode, p.AuditorPublicKey = structs.ThirdPartyAuditing, p.SignatureKey
		})
	case structs.ThirdPartyManagement:
		alt("leaf key", func(p *structs.PublicConfig) { p.LeafPublicKey = genSigningKey(r, cs).Public() })
		alt("mode", func(p *structs.PublicConfig) { p.Mode, p.LeafPublicKey = structs.ContactMonitoring, nil })
		alt("mode", func(p *structs.PublicConfig) {
			p.Mode, p.AuditorPublicKey, p.LeafPublicKey = structs.ThirdPartyAuditing, p.LeafPublicKey, nil
		})
	case structs.ThirdPartyAuditing:
		nums = append(nums, lag, pos)
		num("MaxAuditorLag", lag)
		num("AuditorStartPos", pos)
		alt("auditor key", func(p *structs.PublicConfig) { p.AuditorPublicKey = genSigningKey(r, cs).Public() })
		alt("mode", func(p *structs.PublicConfig) {
			p.Mode, p.AuditorPublicKey = structs.ContactMonitoring, nil
			p.MaxAuditorLag, p.AuditorStartPos = 0, 0
		})
		alt("mode", func(p *structs.PublicConfig) {
			p.Mode, p.LeafPublicKey, p.AuditorPublicKey = structs.ThirdPartyManagement, p.AuditorPublicKey, nil
			p.MaxAuditorLag, p.AuditorStartPos = 0, 0
		})
	}
	for i, f := range nums {
		for j, g := range nums {
			if i < j {
				alt("numbers exchanged", func(p *structs.PublicConfig) { *f(p), *g(p) = *g(p), *f(p) })
			}
		}
	}
	return out
}

func p15Commit(k *Case) {
	r := k.R
	cs := suiteByID(pick(r, 1, 2))
	lvvs := cuts(r)
	opening := r.Bytes(cs.CommitmentOpeningSize())
	seen := make(map[string]string)
	put := func(what string, opening []byte, body []byte, id string) {
		com := commitments.Commit(cs, opening, body)
		if len(com) != cs.HashSize() {
			k.Fail("a commitment has %d bytes", len(com))
		}
		if o, ok := seen[string(com)]; ok && o != id {
			k.Fail("%s and %s have the same commitment", o, id)
		}
		seen[string(com)] = id
		if !commitments.Verify(cs, opening, body, com) {
			k.Fail("an honest commitment does not verify")
		}
		k.Eval("commit/%s", what)
	}
	var bodies [][]byte
	for _, x := range lvvs {
		body := mustMarshal(&structs.CommitmentValue{Label: []byte(x.label), Version: x.ver, Update: structs.UpdateValue{Value: []byte(x.value)}})
		bodies = append(bodies, body)
		put("body", opening, body, fmt.Sprintf("%x %x", opening, body))
	}
	body := bodies[0]
	for i := 0; i < 8*len(opening); i += 1 + r.Intn(5) {
		o := bytes.Clone(opening)
		o[i/8] ^= 1 << (i % 8)
		put("opening", o, body, fmt.Sprintf("%x %x", o, body))
	}
	com := commitments.Commit(cs, opening, body)
	for i := 0; i < 40; i++ {
		o, b, c := bytes.Clone(opening), bytes.Clone(body), bytes.Clone(com)
		what := pick(r, "opening", "body", "commitment", "cut commitment", "longer commitment", "other body", "longer body", "shorter body", "empty commitment")
		switch what {
		case "opening":
			o[r.Intn(len(o))] ^= 1 << r.Intn(8)
		case "body":
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		case "commitment":
			c[r.Intn(len(c))] ^= 1 << r.Intn(8)
		case "cut commitment":
			c = c[:r.Intn(len(c))]
		case "longer commitment":
			c = append(c, r.Bytes(r.Range(1, 3))...)
		case "other body":
			b = bodies[r.Intn(len(bodies))]
			if bytes.Equal(b, body) {
				continue
			}
		case "longer body":
			b = append(b, 0)
		case "shorter body":
			b = b[:len(b)-1]
		case "empty commitment":
			c = nil
		}
		if commitments.Verify(cs, o, b, c) {
			k.Fail("a commitment verifies although %s was altered", what)
		}
		k.Eval("open/%s", what)
	}
}

// signed is a message with a signature by a key.
type signed struct {
	key      int
	msg, sig []byte
}

func p15Sign(k *Case, suite int) {
	r := k.R
	cs := suiteByID(suite)
	var keys []suites.SigningPrivateKey
	var pubs []suites.SigningPublicKey
	for i := 0; i < 3; i++ {
		raw := keyBytes(r)
		if suite == 1 && r.P(0.3) { // scalars with leading zeros or close to the order
			switch r.Intn(3) {
			case 0:
				raw = append(make([]byte, 31), byte(1+r.Intn(255)))
			case 1:
				raw[0], raw[1] = 0, 0
			case 2:
				raw = new(big.Int).Sub(elliptic.P256().Params().N, big.NewInt(int64(1+r.Intn(100)))).FillBytes(make([]byte, 32))
			}
		}
		key, err := cs.ParseSigningPrivateKey(raw)
		k.Assert(err == nil, "a valid private key was refused: %v", err)
		again := must(cs.ParseSigningPrivateKey(bytes.Clone(raw)))
		k.Assert(bytes.Equal(key.Public().Bytes(), again.Public().Bytes()), "the same private key has two public keys")
		enc := key.Public().Bytes()
		pub, err := cs.ParseSigningPublicKey(bytes.Clone(enc))
		k.Assert(err == nil, "the encoding of a public key was refused: %v", err)
		k.Assert(bytes.Equal(pub.Bytes(), enc), "the encoding of a public key changes when it is parsed")
		for _, o := range pubs {
			k.Assert(!bytes.Equal(o.Bytes(), enc), "two private keys have the same public key")
		}
		keys, pubs = append(keys, key), append(pubs, pub)
		if r.P(0.5) {
			keys[i] = again
		}
	}
	var all []signed
	base := r.Bytes(r.Range(1, 300))
	msgs := [][]byte{base, append(bytes.Clone(base), 0), base[:len(base)-1], append([]byte{0}, base...), {}, r.Bytes(r.Intn(2000))}
	flip := bytes.Clone(base)
	flip[r.Intn(len(flip))] ^= 1 << r.Intn(8)
	msgs = append(msgs, flip)
	for _, msg := range msgs {
		i := r.Intn(len(keys))
		sig, err := keys[i].Sign(bytes.Clone(msg))
		k.Assert(err == nil, "signing failed: %v", err)
		all = append(all, signed{i, msg, sig})
	}
	for _, a := range all {
		for i, pub := range pubs {
			for _, v := range []suites.SigningPublicKey{pub, keys[i].Public()} {
				for _, b := range all {
					ok := v.Verify(bytes.Clone(b.msg), bytes.Clone(a.sig))
					want := a.key == i && bytes.Equal(a.msg, b.msg)
					if ok != want {
						k.Fail("a signature by key %d over %x verifies=%v under key %d for %x", a.key, a.msg, ok, i, b.msg)
					}
					k.Eval("sign/%d/%v", suite, want)
				}
			}
		}
	}
	// Altered signatures.
	for _, a := range all {
		for j := 0; j < 10; j++ {
			sig := bytes.Clone(a.sig)
			what := pick(r, "bit", "bit", "bit", "cut", "longer", "longer in front", "halves exchanged", "zero", "zero half", "empty", "other half", "order added", "cut in front")
			half := len(sig) / 2
			switch what {
			case "bit":
				sig[r.Intn(len(sig))] ^= 1 << r.Intn(8)
			case "cut":
				sig = sig[:r.Intn(len(sig))]
			case "cut in front":
				sig = sig[r.Range(1, len(sig)):]
			case "longer":
				sig = append(sig, r.Bytes(r.Range(1, 2))...)
			case "longer in front":
				sig = append(make([]byte, r.Range(1, 2)), sig...)
			case "halves exchanged":
				sig = append(sig[half:len(sig):len(sig)], sig[:half]...)
			case "zero":
				clear(sig)
			case "zero half":
				clear(pick(r, sig[:half], sig[half:]))
			case "empty":
				sig = nil
			case "other half":
				copy(sig[half:], all[r.Intn(len(all))].sig[half:])
			case "order added": // the same number, encoded in another way
				if !addOrder(suite, sig, r) {
					continue
				}
			}
			if bytes.Equal(sig, a.sig) {
				continue
			}
			if pubs[a.key].Verify(a.msg, sig) {
				k.Fail("a signature verifies although it was altered (%s): %x instead of %x", what, sig, a.sig)
			}
			k.Eval("sig/%d/%s", suite, what)
		}
	}
	// Encodings that are not keys.
	enc := pubs[0].Bytes()
	for j := 0; j < 10; j++ {
		raw := bytes.Clone(enc)
		switch r.Intn(4) {
		case 0:
			raw = raw[:r.Intn(len(raw))]
		case 1:
			raw = append(raw, r.Bytes(r.Range(1, 3))...)
		case 2:
			raw[r.Intn(len(raw))] ^= 1 << r.Intn(8)
		case 3:
			raw = r.Bytes(r.Intn(70))
		}
		if bytes.Equal(raw, enc) {
			continue
		}
		pub, err := cs.ParseSigningPublicKey(raw)
		if err == nil {
			if pub.Verify(all[0].msg, all[0].sig) && all[0].key == 0 {
				k.Fail("a signature verifies under an altered public key")
			}
			k.Assert(bytes.Equal(pub.Bytes(), raw), "a public key has two encodings: %x and %x", raw, pub.Bytes())
		}
		k.Eval("key/%d/%v", suite, err == nil)
	}
	for _, n := range []int{0, 1, 31, 33, 64} {
		if _, err := cs.ParseSigningPrivateKey(make([]byte, n)); err == nil {
			k.Fail("a private key of %d bytes was accepted", n)
		}
		k.Eval("private/%d/%d", suite, n)
	}
}

var edOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func addOrder(suite int, sig []byte, r *Rand) bool {
	half := len(sig) / 2
	if suite == 1 {
		part := sig[half:]
		if r.P(0.5) {
			part = sig[:half]
		}
		x := new(big.Int).SetBytes(part)
		x.Add(x, elliptic.P256().Params().N)
		if x.BitLen() > 256 {
			return false
		}
		x.FillBytes(part)
		return true
	}
	le := sig[half:]
	be := make([]byte, len(le))
	for i := range le {
		be[len(le)-1-i] = le[i]
	}
	x := new(big.Int).SetBytes(be)
	x.Add(x, new(big.Int).Mul(edOrder, big.NewInt(int64(r.Range(1, 7)))))
	x.FillBytes(be)
	for i := range le {
		le[i] = be[len(le)-1-i]
	}
	return true
}

// p15World is a small log.
func p15World(k *Case) *World {
	r := k.R
	cfg := genCfg(r)
	cfg.Suite = pick(r, 2, 2, 2, 1)
	cfg.AudGap = pick(r, 0, 1)
	if cfg.Mode == structs.ThirdPartyAuditing {
		cfg.AudPos = uint64(pick(r, 0, 1))
	}
	w := newWorld(k, cfg)
	w.MustMutate([]Add{{Label: w.names[0], Value: w.newValue()}, {Label: w.names[1], Value: w.newValue()}}, nil)
	w.Grow(r.Range(1, 6))
	return w
}

// p15Config shows the answers of a server to clients whose configuration
// differs in one field.
func p15Config(k *Case) {
	w := p15World(k)
	r := k.R
	label := w.names[r.Intn(2)]
	for _, alt := range altConfigs(r, w.pub) {
		if alt.what == "suite" {
			continue // the keys would be of another type
		}
		st := newCStore(r)
		c, err := transparency.NewClient(alt.pub, st)
		if err != nil {
			k.Count("configurations that clients refuse", 1)
			continue
		}
		req, vf, err := c.GreatestVersionSearch(label)
		k.Assert(err == nil, "no request: %v", err)
		res := must(w.tree.Search(bg, req))
		dec, err := structs.NewSearchResponse(alt.pub, req, bytes.NewBuffer(mustMarshal(res)))
		if err != nil {
			k.Eval("config/%s/not decoded", alt.what)
			continue
		}
		err = vf(dec)
		if alt.what == "none" {
			k.Assert(err == nil, "an honest answer was rejected: %v", err)
		} else if err == nil {
			k.Fail("a client whose configuration differs in %s accepted a tree head: %s instead of %s", alt.what, alt.key(), altConfig{"", w.pub}.key())
		} else if st.state != nil || len(st.labels) != 0 {
			k.Fail("a client with another configuration stored something")
		}
		k.Eval("config/%s", alt.what)
	}
}

// p15Stored replaces parts of what the server stores about a version.
func p15Stored(k *Case) {
	w := p15World(k)
	r := k.R
	label := w.names[r.Intn(2)]
	vers := w.cur[string(label)]
	ver := uint32(r.Intn(len(vers)))
	honest := w.stored(label, ver)
	raw := mustMarshal(honest)
	cl := w.newClient()
	var at *uint32
	if int(ver) < len(vers)-1 || r.P(0.5) {
		at = &ver
	}
	res, out := cl.clone().Search(label, at)
	k.Assert(out.ok(), "search failed: %v", out)
	k.Assert(bytes.Equal(res.Value.Value, vers[ver].Value), "wrong value")
	for i := 0; i < 12; i++ {
		o := must(structs.NewOpeningAndValue(w.pub, bytes.NewBuffer(bytes.Clone(raw))))
		what := pick(r, "opening", "value bit", "value longer", "value shorter", "value other", "signature", "signature empty", "other label", "other version")
		switch what {
		case "opening":
			o.Opening[r.Intn(len(o.Opening))] ^= 1 << r.Intn(8)
		case "value bit":
			if len(o.Value.Value) == 0 {
				continue
			}
			o.Value.Value[r.Intn(len(o.Value.Value))] ^= 1 << r.Intn(8)
		case "value longer":
			o.Value.Value = append(o.Value.Value, 0)
		case "value shorter":
			if len(o.Value.Value) == 0 {
				continue
			}
			o.Value.Value = o.Value.Value[:len(o.Value.Value)-1]
		case "value other":
			o.Value.Value = w.newValue()
			if w.cfg.Mode == structs.ThirdPartyManagement {
				o.Value.Signature = w.signLeaf(label, ver, o.Value.Value)
			}
		case "signature", "signature empty":
			if w.cfg.Mode != structs.ThirdPartyManagement {
				continue
			}
			o.Value.Signature[r.Intn(len(o.Value.Signature))] ^= 1 << r.Intn(8)
			if what == "signature empty" {
				o.Value.Signature = []byte{}
			}
		case "other label":
			l := w.names[0]
			if bytes.Equal(l, label) {
				l = w.names[1]
			}
			o = w.stored(l, 0)
		case "other version":
			if len(vers) < 2 {
				continue
			}
			v := uint32(r.Intn(len(vers)))
			if v == ver {
				continue
			}
			o = w.stored(label, v)
		}
		enc := mustMarshal(o)
		if bytes.Equal(enc, raw) {
			continue
		}
		check(w.store.PutVersion(label, ver, enc))
		check(w.store.Commit())
		w.reload()
		try := cl.clone()
		res, out := try.Search(label, at)
		if out.ok() {
			k.Fail("client accepted version %d of %q with %s replaced: value %q instead of %q", ver, label, what, res.Value.Value, vers[ver].Value)
		}
		k.Assert(try.st.equal(cl.st), "a rejected answer changed the state")
		k.Eval("stored/%s/%s/%v", what, modeNames[w.cfg.Mode], at == nil)
	}
}

// p15Heads shows tree heads that were signed for something else.
func p15Heads(k *Case) {
	w := p15World(k)
	r := k.R
	n := w.n()
	fork := w.Clone() // shares the keys
	if n > 1 {
		fork = w.rebuilt(w.hist[:n-1])
		fork.MustMutate([]Add{{Label: w.names[0], Value: []byte("fork")}}, nil)
	}
	label := w.names[r.Intn(2)]
	res, out := w.newClient().Search(label, nil)
	k.Assert(out.ok(), "search failed: %v", out)
	honest := *res.FullTreeHead.TreeHead
	var aud structs.AuditorTreeHead
	if res.FullTreeHead.AuditorTreeHead != nil {
		aud = *res.FullTreeHead.AuditorTreeHead
	}
	root := refLogRoot(w.leaves(n))
	sign := func(key suites.SigningPrivateKey, m structs.Marshaller) []byte { return must(key.Sign(mustMarshal(m))) }
	own := w.priv.SignatureKey
	stranger := genSigningKey(r, w.cs)
	otherRoot := bytes.Clone(root)
	otherRoot[r.Intn(32)] ^= 1
	alts := altConfigs(r, w.pub)
	otherCfg := alts[1+r.Intn(len(alts)-1)].pub
	for i := 0; i < 14; i++ {
		cl := w.newClient()
		req, vf := cl.searchReq(label, nil)
		res, err := w.Search(req)
		check(err)
		h := honest
		a := aud
		var what string
		if w.cfg.Mode == structs.ThirdPartyAuditing && r.P(0.6) {
			rootP := refLogRoot(w.leaves(a.TreeSize))
			tbs := structs.AuditorTreeHeadTBS{Config: w.pub, Timestamp: a.Timestamp, TreeSize: a.TreeSize, Root: rootP}
			key := w.audKey
			what = pick(r, "auditor by stranger", "auditor by log", "auditor config", "auditor timestamp", "auditor signed timestamp", "auditor size", "auditor signed size", "auditor root", "auditor signature", "auditor head signed as tree head")
			switch what {
			case "auditor by stranger":
				key = stranger
			case "auditor by log":
				key = own
			case "auditor config":
				tbs.Config = otherCfg
			case "auditor timestamp":
				if a.Timestamp == 0 {
					continue
				}
				a.Timestamp--
			case "auditor signed timestamp":
				tbs.Timestamp += pick(r, uint64(1), ^uint64(0), 1<<32)
			case "auditor size":
				if a.TreeSize < 2 {
					continue
				}
				a.TreeSize--
			case "auditor signed size":
				tbs.TreeSize += pick(r, uint64(1), ^uint64(0), 1<<32)
			case "auditor root":
				tbs.Root = otherRoot
			}
			a.Signature = sign(key, &tbs)
			if what == "auditor head signed as tree head" {
				a.Signature = sign(key, &structs.TreeHeadTBS{Config: w.pub, TreeSize: a.TreeSize, Root: rootP})
			}
			if what == "auditor signature" {
				a.Signature = bytes.Clone(aud.Signature)
				a.Signature[r.Intn(len(a.Signature))] ^= 1 << r.Intn(8)
			}
			res.FullTreeHead.AuditorTreeHead = &a
		} else {
			tbs := structs.TreeHeadTBS{Config: w.pub, TreeSize: n, Root: root}
			key := own
			what = pick(r, "by stranger", "config", "signed size", "root", "signature", "of fork", "older", "signed as auditor head", "by auditor")
			switch what {
			case "by stranger":
				key = stranger
			case "by auditor":
				if w.audKey == nil {
					continue
				}
				key = w.audKey
			case "config":
				tbs.Config = otherCfg
			case "signed size":
				tbs.TreeSize += pick(r, uint64(1), ^uint64(0), 1<<32)
			case "root":
				tbs.Root = otherRoot
			}
			h.Signature = sign(key, &tbs)
			switch what {
			case "signature":
				h.Signature = bytes.Clone(honest.Signature)
				h.Signature[r.Intn(len(h.Signature))] ^= 1 << r.Intn(8)
			case "of fork":
				if n < 2 {
					continue
				}
				h = *must(fork.Search(&structs.SearchRequest{Label: label})).FullTreeHead.TreeHead
			case "older":
				if n < 2 {
					continue
				}
				h = *w.signHead(n-1, refLogRoot(w.leaves(n-1)))
				h.TreeSize = n
			case "signed as auditor head":
				h.Signature = sign(key, &structs.AuditorTreeHeadTBS{Config: w.pub, TreeSize: n, Timestamp: w.hist[n-1].Ts, Root: root})
			}
			res.FullTreeHead.TreeHead = &h
		}
		w.use()
		if err := vf(res); err == nil {
			k.Fail("client accepted a tree head altered in: %s", what)
		} else if cl.st.state != nil {
			k.Fail("client stored a tree head that it rejected")
		}
		k.Eval("heads/%s", what)
	}
}

// p15Openings checks that the openings in a log are fresh.
func p15Openings(k *Case) {
	r := k.R
	w := newWorld(k, genCfg(r))
	for i := 0; i < 4; i++ {
		var adds []Add
		for j := 0; j < 40; j++ {
			adds = append(adds, Add{Label: w.names[r.Intn(len(w.names))], Value: []byte("same")})
		}
		w.advance()
		w.MustMutate(adds, nil)
	}
	seen := make(map[string]bool)
	pos := make([]map[byte]bool, w.cs.CommitmentOpeningSize())
	for i := range pos {
		pos[i] = make(map[byte]bool)
	}
	coms := make(map[string]bool)
	for _, l := range sortedKeys(w.cur) {
		for v := range w.cur[l] {
			o := w.stored([]byte(l), uint32(v))
			k.Assert(len(o.Opening) == len(pos), "an opening has %d bytes", len(o.Opening))
			k.Assert(!seen[string(o.Opening)], "an opening was used twice")
			seen[string(o.Opening)] = true
			for i, b := range o.Opening {
				pos[i][b] = true
			}
			com := w.commit([]byte(l), uint32(v), o)
			k.Assert(!coms[string(com)], "two versions have the same commitment")
			coms[string(com)] = true
			k.Eval("openings")
		}
	}
	for i := range pos {
		k.Assert(len(pos[i]) > 20, "byte %d of openings takes only %d values", i, len(pos[i]))
	}
}

// p15Together has keys, a configuration and structures used by several
// goroutines at once, as a server's handlers do.
func p15Together(k *Case) {
	r := k.R
	suite := 1 + k.Idx%2
	cs := suiteByID(suite)
	key := must(cs.ParseSigningPrivateKey(keyBytes(r)))
	vrfKey := must(cs.ParseVRFPrivateKey(keyBytes(r)))
	priv := structs.PrivateConfig{SignatureKey: key, VrfKey: vrfKey, Config: structs.Config{
		Suite: cs, Mode: structs.ContactMonitoring, MaxAhead: r.Uint64(), MaxBehind: r.Uint64(), ReasonableMonitoringWindow: r.Uint64(),
	}}
	shared := priv.Public()
	const workers, rounds = 6, 8
	var wg sync.WaitGroup
	bad := make([]string, workers)
	for w := range workers {
		cv := &structs.CommitmentValue{Label: r.Bytes(r.Intn(20)), Version: uint32(r.Intn(100)), Update: structs.UpdateValue{Value: r.Bytes(r.Intn(50))}}
		opening := r.Bytes(cs.CommitmentOpeningSize())
		want := commitments.Commit(cs, opening, mustMarshal(cv))
		tbs := &structs.TreeHeadTBS{Config: shared, TreeSize: r.Uint64(), Root: r.Bytes(cs.HashSize())}
		enc := mustMarshal(tbs)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad[w] = fmt.Sprintf("panic: %v", p)
				}
			}()
			for range rounds {
				if got := commitments.Commit(cs, opening, mustMarshal(cv)); !bytes.Equal(got, want) {
					bad[w] = "a commitment was computed wrongly"
				}
				got := mustMarshal(&structs.TreeHeadTBS{Config: priv.Public(), TreeSize: tbs.TreeSize, Root: tbs.Root})
				if !bytes.Equal(got, enc) || !bytes.Equal(mustMarshal(tbs), enc) {
					bad[w] = "a statement was encoded wrongly"
				}
				sig, err := key.Sign(got)
				if err != nil {
					bad[w] = err.Error()
				} else if !key.Public().Verify(enc, sig) || !shared.SignatureKey.Verify(enc, sig) {
					bad[w] = "a signature doesn't verify"
				}
			}
		}()
	}
	wg.Wait()
	for _, msg := range bad {
		k.Assert(msg == "", "while the keys were used by others: %s", msg)
		k.Eval("together/%d", suite)
	}
}
