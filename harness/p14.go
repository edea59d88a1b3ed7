//go:build P14

package main

import (
	"bytes"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"
	"sync"

	ed "filippo.io/edwards25519"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	vrfed "github.com/Bren2010/katie/crypto/vrf/edwards25519"
	vrfp "github.com/Bren2010/katie/crypto/vrf/p256"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P14", Level: "exploration", Min: 20000, RaceGroup: "together",
		Rule: "random keys and inputs of both suites; outputs and proofs are compared with an independent implementation of RFC 9381, proofs are altered in every part, replaced by non-canonical and low-order encodings, made for other keys and inputs, and made by a prover that knows the key and adds low-order components; keys are used by several goroutines at once under the race detector; an evaluation is one proof shown to the verifier, keyed by the kind of alteration",
		Run:  runP14,
	})
}

func vrfKeyBytes(r *Rand, suite int) []byte {
	b := r.Bytes(32)
	if suite == 1 {
		switch r.Intn(12) {
		case 0: // small
			b = make([]byte, 32)
			b[31] = byte(1 + r.Intn(200))
		case 1: // just below the order
			n := new(big.Int).Sub(elliptic.P256().Params().N, big.NewInt(int64(1+r.Intn(5))))
			b = n.FillBytes(make([]byte, 32))
		case 2:
			b[0], b[1] = 0, 0
		}
		if new(big.Int).SetBytes(b).Cmp(elliptic.P256().Params().N) >= 0 {
			b[0] = 0x7f
		}
	}
	return b
}

func vrfInput(r *Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return r.Bytes(r.Intn(4))
	case 1:
		return r.Bytes(r.Range(60, 400))
	}
	return mustMarshal(&structs.VrfInput{Label: r.Bytes(r.Intn(20)), Version: uint32(r.Intn(300))})
}

// Reference implementation of RFC 9381: ECVRF-P256-SHA256-TAI and
// ECVRF-EDWARDS25519-SHA512-TAI with the output truncated to 32 bytes.

func refVRF(suite int, raw, m []byte) (pub, output, proof []byte, tries int) {
	if suite == 1 {
		return refVRFP256(raw, m)
	}
	return refVRFEd(raw, m)
}

func compressP(x, y *big.Int) []byte {
	out := make([]byte, 33)
	out[0] = 2 + byte(y.Bit(0))
	x.FillBytes(out[1:])
	return out
}

func refVRFP256(raw, m []byte) (pub, output, proof []byte, tries int) {
	c := elliptic.P256()
	p, q := c.Params().P, c.Params().N
	x := new(big.Int).SetBytes(raw)
	px, py := c.ScalarBaseMult(raw)
	pub = compressP(px, py)
	var hx, hy *big.Int
	for ; ; tries++ {
		h := sha256.Sum256(bytes.Join([][]byte{{1, 1}, pub, m, {byte(tries), 0}}, nil))
		hx = new(big.Int).SetBytes(h[:])
		if hx.Cmp(p) >= 0 {
			continue
		}
		// y² = x³ - 3x + b
		y2 := new(big.Int).Exp(hx, big.NewInt(3), p)
		y2.Sub(y2, new(big.Int).Mul(hx, big.NewInt(3)))
		y2.Add(y2, c.Params().B).Mod(y2, p)
		hy = new(big.Int).ModSqrt(y2, p)
		if hy == nil {
			continue
		}
		if hy.Bit(0) == 1 {
			hy.Sub(p, hy)
		}
		break
	}
	hStr := compressP(hx, hy)
	gx, gy := c.ScalarMult(hx, hy, raw)
	gamma := compressP(gx, gy)

	// RFC 6979 nonce.
	h1 := sha256.Sum256(hStr)
	h1i := new(big.Int).SetBytes(h1[:])
	h1o := h1i.FillBytes(make([]byte, 32)) // as the VRF RFC's vectors: see below
	mac := func(k []byte, parts ...[]byte) []byte {
		h := hmac.New(sha256.New, k)
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	V := bytes.Repeat([]byte{1}, 32)
	K := make([]byte, 32)
	K = mac(K, V, []byte{0}, raw, h1o)
	V = mac(K, V)
	K = mac(K, V, []byte{1}, raw, h1o)
	V = mac(K, V)
	var k *big.Int
	for {
		V = mac(K, V)
		k = new(big.Int).SetBytes(V)
		if k.Sign() > 0 && k.Cmp(q) < 0 {
			break
		}
		K = mac(K, V, []byte{0})
		V = mac(K, V)
	}
	ux, uy := c.ScalarBaseMult(V)
	vx, vy := c.ScalarMult(hx, hy, V)
	ch := sha256.Sum256(bytes.Join([][]byte{{1, 2}, pub, hStr, gamma, compressP(ux, uy), compressP(vx, vy), {0}}, nil))
	s := new(big.Int).Mul(new(big.Int).SetBytes(ch[:16]), x)
	s.Add(s, k).Mod(s, q)
	proof = append(append(bytes.Clone(gamma), ch[:16]...), s.FillBytes(make([]byte, 32))...)
	out := sha256.Sum256(bytes.Join([][]byte{{1, 3}, gamma, {0}}, nil))
	return pub, out[:], proof, tries
}

type edKey struct {
	x     *ed.Scalar
	A     *ed.Point
	upper []byte
}

func newEdKey(raw []byte) edKey {
	h := sha512.Sum512(raw)
	x := must(new(ed.Scalar).SetBytesWithClamping(h[:32]))
	return edKey{x, new(ed.Point).ScalarBaseMult(x), bytes.Clone(h[32:])}
}

func edToCurve(salt, m []byte) (*ed.Point, int) {
	for tries := 0; ; tries++ {
		h := sha512.Sum512(bytes.Join([][]byte{{3, 1}, salt, m, {byte(tries), 0}}, nil))
		if p, err := new(ed.Point).SetBytes(h[:32]); err == nil {
			return new(ed.Point).MultByCofactor(p), tries
		}
	}
}

func edChallenge(pts ...*ed.Point) []byte {
	buf := []byte{3, 2}
	for _, p := range pts {
		buf = append(buf, p.Bytes()...)
	}
	h := sha512.Sum512(append(buf, 0))
	return append(h[:16:16], make([]byte, 16)...)
}

func edOutput(gamma *ed.Point) []byte {
	g := new(ed.Point).MultByCofactor(gamma)
	h := sha512.Sum512(bytes.Join([][]byte{{3, 3}, g.Bytes(), {0}}, nil))
	return h[:32]
}

func refVRFEd(raw, m []byte) (pub, output, proof []byte, tries int) {
	k := newEdKey(raw)
	H, tries := edToCurve(k.A.Bytes(), m)
	gamma := new(ed.Point).ScalarMult(k.x, H)
	n := sha512.Sum512(append(bytes.Clone(k.upper), H.Bytes()...))
	nonce := must(new(ed.Scalar).SetUniformBytes(n[:]))
	c := edChallenge(k.A, H, gamma, new(ed.Point).ScalarBaseMult(nonce), new(ed.Point).ScalarMult(nonce, H))
	s := new(ed.Scalar).MultiplyAdd(must(new(ed.Scalar).SetCanonicalBytes(c)), k.x, nonce)
	proof = bytes.Join([][]byte{gamma.Bytes(), c[:16], s.Bytes()}, nil)
	return k.A.Bytes(), edOutput(gamma), proof, tries
}

// torsion returns the eight points of low order of Edwards25519.
func torsion() []*ed.Point {
	raw := must(hex.DecodeString("c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"))
	p := must(new(ed.Point).SetBytes(raw))
	out := []*ed.Point{ed.NewIdentityPoint()}
	for i := 1; i < 8; i++ {
		out = append(out, new(ed.Point).Add(out[i-1], p))
	}
	return out
}

// lowOrder are encodings, canonical or not, of points of low order.
var lowOrder = []string{
	"0100000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000080",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0000000000000000000000000000000000000000000000000000000000000080",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
}

func runP14(c *Ctx) {
	for s := 1; s <= 2; s++ {
		suite := s
		c.Each(fmt.Sprintf("honest%d", suite), c.N(pick2(suite, 120, 250), pick2(suite, 3000, 8000)), func(k *Case) { p14Honest(k, suite) })
		c.Each(fmt.Sprintf("hostile%d", suite), c.N(pick2(suite, 100, 200), pick2(suite, 3000, 8000)), func(k *Case) { p14Hostile(k, suite) })
		c.Each(fmt.Sprintf("keys%d", suite), c.N(120, 2000), func(k *Case) { p14Keys(k, suite) })
	}
	c.Each("together", c.N(32, 600), p14Together)
	c.Each("torsion", c.N(60, 2000), p14Torsion)
	c.Each("guess", c.N(16, 64), p14Guess)
}

func pick2(suite, a, b int) int {
	if suite == 1 {
		return a
	}
	return b
}

// p14Honest compares proving and verifying with the reference.
func p14Honest(k *Case, suite int) {
	r, cs := k.R, suiteByID(suite)
	raw := vrfKeyBytes(r, suite)
	arg := bytes.Clone(raw)
	priv, err := cs.ParseVRFPrivateKey(arg)
	k.Assert(err == nil, "valid private key %x refused: %v", raw, err)
	for i := range arg {
		arg[i] ^= 0x55 // the key must not depend on the caller's slice
	}
	again := must(cs.ParseVRFPrivateKey(raw))
	pub := priv.PublicKey()
	pub2, err := cs.ParseVRFPublicKey(pub.Bytes())
	k.Assert(err == nil && bytes.Equal(pub2.Bytes(), pub.Bytes()), "public key %x does not survive serialisation: %v", pub.Bytes(), err)
	outputs := make(map[string][]byte)
	for i := 0; i < 12; i++ {
		m := vrfInput(r)
		before := bytes.Clone(m)
		out, proof := priv.Prove(m)
		k.Assert(bytes.Equal(before, m), "proving changes the input")
		rp, rout, rproof, tries := refVRF(suite, raw, m)
		k.Assert(bytes.Equal(pub.Bytes(), rp), "public key of %x is %x, not %x", raw, pub.Bytes(), rp)
		k.Assert(bytes.Equal(out, rout), "output for key %x, input %x is %x, not %x as in RFC 9381", raw, m, out, rout)
		k.Assert(bytes.Equal(proof, rproof), "proof for key %x, input %x is %x, not %x as in RFC 9381", raw, m, proof, rproof)
		k.Assert(len(proof) == cs.VrfProofSize(), "proof has %d bytes, suite says %d", len(proof), cs.VrfProofSize())
		if other, ok := outputs[string(out)]; ok {
			k.Assert(bytes.Equal(other, m), "inputs %x and %x have the same output", other, m)
		}
		outputs[string(out)] = m
		for _, p := range []vrf.PublicKey{pub, pub2, again.PublicKey()} {
			pb, mb := bytes.Clone(proof), bytes.Clone(m)
			got, err := p.Verify(mb, pb)
			k.Assert(err == nil && bytes.Equal(got, out), "honest proof %x of key %x, input %x gives %x, %v instead of %x", proof, raw, m, got, err, out)
			k.Assert(bytes.Equal(pb, proof) && bytes.Equal(mb, m), "verifying changes its input")
			for i := range got {
				got[i] = 0 // results must not be shared
			}
		}
		// Deterministic, by another instance and in parallel, whatever is done to
		// earlier results.
		o2, p2 := again.Prove(m)
		k.Assert(bytes.Equal(o2, out) && bytes.Equal(p2, proof), "proving twice gives different results for key %x, input %x", raw, m)
		cp, co := bytes.Clone(proof), bytes.Clone(out)
		for i := range proof {
			proof[i] ^= 0xff
		}
		for i := range out {
			out[i] ^= 0xff
		}
		if i%4 == 0 {
			var wg sync.WaitGroup
			bad := make([]bool, 4)
			for j := range bad {
				wg.Add(1)
				go func() {
					defer wg.Done()
					o, p := priv.Prove(m)
					g, err := pub.Verify(m, p)
					bad[j] = !bytes.Equal(o, co) || !bytes.Equal(p, cp) || err != nil || !bytes.Equal(g, co)
				}()
			}
			wg.Wait()
			for _, b := range bad {
				k.Assert(!b, "proving in parallel gives different results for key %x, input %x", raw, m)
			}
		}
		k.Eval("honest s%d tries%d len%d", suite, tries, len(m)/16)
		k.Count(fmt.Sprintf("inputs hashed with %d tries, suite %d", min(tries+1, 8), suite), 1)
	}
}

// p14Hostile alters proofs.
func p14Hostile(k *Case, suite int) {
	r, cs := k.R, suiteByID(suite)
	raw := vrfKeyBytes(r, suite)
	priv := must(cs.ParseVRFPrivateKey(raw))
	pub := priv.PublicKey()
	m := vrfInput(r)
	out, proof := priv.Prove(m)
	glen := cs.VrfProofSize() - 48
	other := must(cs.ParseVRFPrivateKey(vrfKeyBytes(r, suite)))
	m2 := append(bytes.Clone(m), byte(r.Intn(256)))
	if r.P(0.5) && len(m) > 0 {
		m2 = bytes.Clone(m)
		m2[r.Intn(len(m2))] ^= 1 << r.Intn(8)
	}
	_, proof2 := priv.Prove(m2)
	_, proofO := other.Prove(m)

	show := func(what string, p vrf.PublicKey, m, proof []byte) {
		got, err := p.Verify(m, proof)
		k.Assert(err != nil, "%s is accepted: key %x, input %x, proof %x gives %x (honest proof gives %x)", what, raw, m, proof, got, out)
		k.Assert(got == nil, "%s: output %x is returned although the proof is not valid", what, got)
		k.Eval("%s s%d", what, suite)
	}
	show("proof for another input", pub, m, proof2)
	show("proof for another input", pub, m2, proof)
	show("proof by another key", pub, m, proofO)
	show("proof shown to another key", other.PublicKey(), m, proof)
	for i := 0; i < 12; i++ {
		b := bytes.Clone(proof)
		bit := r.Intn(len(b) * 8)
		b[bit/8] ^= 1 << (bit % 8)
		show(fmt.Sprintf("proof with an altered bit in byte %d", bit/8), pub, m, b)
	}
	parts := [][]byte{proof[:glen], proof[glen : glen+16], proof[glen+16:]}
	others := [][]byte{proof2[:glen], proof2[glen : glen+16], proof2[glen+16:]}
	mix := func(mask int) []byte {
		var b []byte
		for i := range parts {
			if mask>>i&1 == 1 {
				b = append(b, others[i]...)
			} else {
				b = append(b, parts[i]...)
			}
		}
		return b
	}
	for mask := 1; mask < 8; mask++ {
		show(fmt.Sprintf("mixed proof %d", mask), pub, m, mix(mask))
	}
	with := func(g, c, s []byte) []byte {
		p := [][]byte{parts[0], parts[1], parts[2]}
		for i, x := range [][]byte{g, c, s} {
			if x != nil {
				p[i] = x
			}
		}
		return bytes.Join(p, nil)
	}
	zero16, zero32, ones := make([]byte, 16), make([]byte, 32), bytes.Repeat([]byte{0xff}, 32)
	show("zero challenge", pub, m, with(nil, zero16, nil))
	show("zero scalar", pub, m, with(nil, nil, zero32))
	show("all-ones scalar", pub, m, with(nil, nil, ones))
	show("zero challenge and scalar", pub, m, with(nil, zero16, zero32))
	for _, n := range []int{0, 1, 16, 32, 33, 48, 64, len(proof) - 1, len(proof) + 1, len(proof) + 32, 2 * len(proof)} {
		b := append(bytes.Clone(proof), make([]byte, 200)...)[:n]
		show(fmt.Sprintf("proof of length %d", n), pub, m, b)
	}
	show("nil proof", pub, m, nil)
	for i := 0; i < 4; i++ {
		show("random proof", pub, m, r.Bytes(len(proof)))
	}
	if suite == 1 {
		n := elliptic.P256().Params().N
		p := elliptic.P256().Params().P
		s := new(big.Int).SetBytes(parts[2])
		for i := 0; i < 2; i++ {
			// Only possible for small s; the multiples that fit are all shown.
			s = new(big.Int).Add(s, n)
			if s.BitLen() <= 256 {
				show("scalar plus the order", pub, m, with(nil, nil, s.FillBytes(make([]byte, 32))))
			}
		}
		s.Sub(n, new(big.Int).SetBytes(parts[2]))
		show("negated scalar", pub, m, with(nil, nil, s.FillBytes(make([]byte, 32))))
		show("scalar of the order", pub, m, with(nil, nil, n.FillBytes(make([]byte, 32))))
		neg := bytes.Clone(parts[0])
		neg[0] ^= 1
		show("negated gamma", pub, m, with(neg, nil, nil))
		for _, first := range []byte{0, 1, 4, 5, 6, 7, 0x12, 0x82} {
			b := bytes.Clone(parts[0])
			b[0] = first
			show("gamma of an unknown format", pub, m, with(b, nil, nil))
		}
		// x of gamma plus p, if it fits, and points that are not on the curve.
		x := new(big.Int).SetBytes(parts[0][1:])
		x.Add(x, p)
		if x.BitLen() <= 256 {
			show("gamma with x plus the prime", pub, m, with(append(parts[0][:1:1], x.FillBytes(make([]byte, 32))...), nil, nil))
		}
		show("gamma at infinity", pub, m, with(make([]byte, 33), nil, nil))
		show("gamma with x of all ones", pub, m, with(append([]byte{2}, ones...), nil, nil))
	} else {
		// s + L and so on.
		l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
		le := func(b []byte) []byte {
			out := make([]byte, len(b))
			for i := range b {
				out[len(b)-1-i] = b[i]
			}
			return out
		}
		s := new(big.Int).SetBytes(le(parts[2]))
		neg := new(big.Int).Sub(l, s)
		for i := 1; i < 16; i++ {
			s = new(big.Int).Add(s, l)
			if s.BitLen() <= 256 {
				show("scalar plus multiple of the order", pub, m, with(nil, nil, le(s.FillBytes(make([]byte, 32)))))
			}
		}
		show("negated scalar", pub, m, with(nil, nil, le(neg.FillBytes(make([]byte, 32)))))
		negG := bytes.Clone(parts[0])
		negG[31] ^= 0x80
		show("negated gamma", pub, m, with(negG, nil, nil))
		for _, s := range lowOrder {
			show("gamma of low order", pub, m, with(must(hex.DecodeString(s)), nil, nil))
			show("gamma of low order, all zero", pub, m, with(must(hex.DecodeString(s)), zero16, zero32))
		}
	}
}

// p14Keys is about encodings of keys.
func p14Keys(k *Case, suite int) {
	r, cs := k.R, suiteByID(suite)
	priv := func(what string, raw []byte, ok bool) {
		key, err := cs.ParseVRFPrivateKey(raw)
		k.Assert((err == nil) == ok, "%s: private key %x, error %v", what, raw, err)
		if ok {
			m := vrfInput(r)
			out, proof := key.Prove(m)
			got, err := key.PublicKey().Verify(m, proof)
			k.Assert(err == nil && bytes.Equal(got, out), "%s: private key %x does not work", what, raw)
		}
		k.Eval("%s s%d", what, suite)
	}
	bad := func(what string, raw []byte) {
		key, err := cs.ParseVRFPublicKey(raw)
		k.Assert(err != nil, "%s: public key %x is accepted as %v", what, raw, key)
		k.Eval("%s s%d", what, suite)
	}
	good := vrfKeyBytes(r, suite)
	priv("private key", good, true)
	for _, n := range []int{0, 1, 31, 33, 64, 65} {
		priv(fmt.Sprintf("private key of %d bytes", n), append(bytes.Clone(good), r.Bytes(40)...)[:n], false)
	}
	pub := must(cs.ParseVRFPrivateKey(good)).PublicKey().Bytes()
	for _, n := range []int{0, 1, len(pub) - 1, len(pub) + 1, 64, 100} {
		bad(fmt.Sprintf("public key of %d bytes", n), append(bytes.Clone(pub), r.Bytes(100)...)[:n])
		bad(fmt.Sprintf("public key of %d zeros", n), make([]byte, n))
	}
	if suite == 1 {
		n := elliptic.P256().Params().N
		fill := func(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }
		priv("private key 0", make([]byte, 32), false)
		priv("private key 1", fill(big.NewInt(1)), true)
		priv("private key order-1", fill(new(big.Int).Sub(n, big.NewInt(1))), true)
		priv("private key order", fill(n), false)
		priv("private key order+", fill(new(big.Int).Add(n, big.NewInt(int64(1+r.Intn(1000))))), false)
		priv("private key max", bytes.Repeat([]byte{0xff}, 32), false)
		bad("point at infinity", []byte{0})
		bad("point at infinity, padded", make([]byte, 33))
		bad("point at infinity, padded", make([]byte, 65))
		for {
			b := append([]byte{2}, r.Bytes(32)...)
			if x, _ := elliptic.UnmarshalCompressed(elliptic.P256(), b); x == nil {
				bad("point that is not on the curve", b)
				break
			}
		}
		b := append([]byte{4}, r.Bytes(64)...)
		bad("uncompressed point that is not on the curve", b)
		b = bytes.Clone(pub)
		b[0] = pick(r, byte(0), 1, 4, 5, 6, 7, 8, 0x22)
		bad("point of unknown format", b)
		// A point on the twist, with y of another x.
		x, y := elliptic.UnmarshalCompressed(elliptic.P256(), pub)
		y = new(big.Int).Add(y, big.NewInt(1))
		unc := append([]byte{4}, append(fill(x), fill(new(big.Int).Mod(y, elliptic.P256().Params().P))...)...)
		bad("uncompressed point with wrong y", unc)
	} else {
		for _, s := range lowOrder {
			bad("point of low order", must(hex.DecodeString(s)))
		}
		for {
			b := r.Bytes(32)
			if _, err := new(ed.Point).SetBytes(b); err != nil {
				bad("point that is not on the curve", b)
				break
			}
		}
	}
	// Keys from the generators.
	var gen []byte
	if suite == 1 {
		gen = vrfp.GeneratePrivateKey()
	} else {
		gen = vrfed.GeneratePrivateKey()
	}
	priv("generated private key", gen, true)
	p := must(cs.ParseVRFPrivateKey(gen)).PublicKey()
	q, err := cs.ParseVRFPublicKey(p.Bytes())
	k.Assert(err == nil && bytes.Equal(q.Bytes(), p.Bytes()), "public key %x does not survive serialisation: %v", p.Bytes(), err)
	_ = suites.CipherSuite(cs)
}

// p14Torsion has a prover that knows the private key look for a second output
// by adding points of low order to the public key and to gamma.
func p14Torsion(k *Case) {
	r, cs := k.R, suiteByID(2)
	raw := r.Bytes(32)
	key := newEdKey(raw)
	tor := torsion()
	A := new(ed.Point).Add(key.A, tor[r.Intn(8)])
	pub, err := cs.ParseVRFPublicKey(A.Bytes())
	k.Assert(err == nil, "public key %x: %v", A.Bytes(), err)
	m := vrfInput(r)
	H, _ := edToCurve(A.Bytes(), m)
	var first []byte
	accepted := 0
	for i := 0; i < 8; i++ {
		gamma := new(ed.Point).Add(new(ed.Point).ScalarMult(key.x, H), tor[i])
		ok := false
		for try := 0; try < 400 && !ok; try++ {
			k0 := must(new(ed.Scalar).SetUniformBytes(r.Bytes(64)))
			// Guess the low-order components of U and V.
			U := new(ed.Point).Add(new(ed.Point).ScalarBaseMult(k0), tor[r.Intn(8)])
			V := new(ed.Point).Add(new(ed.Point).ScalarMult(k0, H), tor[r.Intn(8)])
			c := edChallenge(A, H, gamma, U, V)
			s := new(ed.Scalar).MultiplyAdd(must(new(ed.Scalar).SetCanonicalBytes(c)), key.x, k0)
			proof := bytes.Join([][]byte{gamma.Bytes(), c[:16], s.Bytes()}, nil)
			got, err := pub.Verify(m, proof)
			k.Eval("torsion gamma%d", i)
			if err != nil {
				continue
			}
			ok = true
			accepted++
			if first == nil {
				first = got
			}
			k.Assert(bytes.Equal(got, first), "two outputs, %x and %x, for key %x and input %x (proof %x)", first, got, A.Bytes(), m, proof)
		}
	}
	k.Count("accepted proofs with components of low order", accepted)
	k.Assert(first == nil || bytes.Equal(first, edOutput(new(ed.Point).ScalarMult(key.x, H))), "proof with component of low order has another output")
}

// p14Guess has a prover without the key try its luck: a verifier that looks at
// much less than the 128 bits of the challenge would accept something.
func p14Guess(k *Case) {
	r := k.R
	cs := suiteByID(2)
	priv := must(cs.ParseVRFPrivateKey(r.Bytes(32)))
	pub := priv.PublicKey()
	m := vrfInput(r)
	_, proof := priv.Prove(m)
	g := proof[:32]
	n := k.N(3000, 20000)
	for i := 0; i < n; i++ {
		if i%64 == 0 {
			_, p := priv.Prove(r.Bytes(20))
			g = p[:32]
		}
		b := bytes.Join([][]byte{g, r.Bytes(16), r.Bytes(31), {byte(r.Intn(16))}}, nil)
		got, err := pub.Verify(m, b)
		k.Assert(err != nil, "random proof %x is accepted for input %x, output %x", b, m, got)
	}
	k.Eval("guess %d", k.Idx)
	k.Count("guessed proofs", n)
}

// p14Together has the same keys used by several goroutines at once.
func p14Together(k *Case) {
	r := k.R
	suite := 1 + k.Idx%2
	cs := suiteByID(suite)
	raw := vrfKeyBytes(r, suite)
	priv := must(cs.ParseVRFPrivateKey(bytes.Clone(raw)))
	pub := must(cs.ParseVRFPublicKey(priv.PublicKey().Bytes()))
	const workers, rounds = 6, 6
	var wg sync.WaitGroup
	bad := make([]string, workers)
	for w := range workers {
		m := vrfInput(r)
		_, want, proof, _ := refVRF(suite, raw, m)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad[w] = fmt.Sprintf("panic: %v", p)
				}
			}()
			for range rounds {
				out, got := priv.Prove(m)
				if !bytes.Equal(out, want) || !bytes.Equal(got, proof) {
					bad[w] = fmt.Sprintf("the proof for %x is %x with output %x, not %x with %x", m, got, out, proof, want)
				}
				for _, p := range []vrf.PublicKey{pub, priv.PublicKey()} {
					if out, err := p.Verify(m, proof); err != nil || !bytes.Equal(out, want) {
						bad[w] = fmt.Sprintf("the proof %x for %x verifies to %x, %v", proof, m, out, err)
					}
				}
			}
		}()
	}
	wg.Wait()
	for _, msg := range bad {
		k.Assert(msg == "", "while the key was used by others: %s", msg)
		k.Eval("together/%d", suite)
	}
}
