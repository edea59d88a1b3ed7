//go:build P31

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"strings"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	register(&Check{
		ID: "P31", Level: "exploration", Min: 1500,
		Rule: "runs of the key generation command for both suites: every printed key is parsed, compared with its public key and put to use, and all keys of all runs of a process are compared with each other bit by bit; construction of clients for every combination of mode and keys with lifetimes around the monitoring window; logs that are run with generated keys and accepted configurations; an evaluation is one run, one construction or one operation, keyed by its kind, parameters and result",
		Run:  runP31,
	})
}

func runP31(c *Ctx) {
	c.Each("generate", c.N(16, 160), p31Generate)
	c.Each("usage", c.N(8, 8), p31Usage)
	c.Each("deploy", c.N(48, 800), p31Deploy)
	c.Each("configs", c.N(30, 400), p31Configs)
	c.Each("accepted", c.N(80, 1500), p31Accepted)
}

var p31Labels = []string{"Signing Private Key: ", "Signing Public Key:  ", "VRF Private Key:     ", "VRF Public Key:      "}

type p31Keys struct {
	cs    suites.CipherSuite
	raw   [4][]byte
	sign  suites.SigningPrivateKey
	check suites.SigningPublicKey
	prove vrf.PrivateKey
	vrf   vrf.PublicKey
}

// p31Run runs the command. It is the command that chooses the keys, so the
// cases that use it are not determined by the seed.
func p31Run(k *Case, suite int) *p31Keys {
	arg := map[int]string{1: "p256", 2: "ed25519"}[suite]
	out, err := exec.Command(os.Getenv("KCHECK_GENKEYS"), arg).Output()
	if err != nil {
		k.Fail("generate-keys %s: %v", arg, err)
	}
	lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	k.Assert(len(lines) == 4, "generate-keys %s printed %d lines", arg, len(lines))
	keys := &p31Keys{cs: suiteByID(suite)}
	for i, l := range p31Labels {
		name := strings.TrimRight(l, ": ")
		k.Assert(strings.HasPrefix(lines[i], name+":"), "generate-keys %s: line %d is not the %s", arg, i, name)
		raw, err := hex.DecodeString(strings.TrimSpace(strings.TrimPrefix(lines[i], name+":")))
		k.Assert(err == nil, "generate-keys %s: %s is not in hexadecimal: %v", arg, name, err)
		keys.raw[i] = raw
	}
	fail := func(what string, err error) {
		if err != nil {
			k.Fail("generate-keys %s: %s does not parse: %v", arg, what, err)
		}
	}
	keys.sign, err = keys.cs.ParseSigningPrivateKey(bytes.Clone(keys.raw[0]))
	fail("signing private key", err)
	keys.check, err = keys.cs.ParseSigningPublicKey(bytes.Clone(keys.raw[1]))
	fail("signing public key", err)
	keys.prove, err = keys.cs.ParseVRFPrivateKey(bytes.Clone(keys.raw[2]))
	fail("VRF private key", err)
	keys.vrf, err = keys.cs.ParseVRFPublicKey(bytes.Clone(keys.raw[3]))
	fail("VRF public key", err)
	return keys
}

func (s *p31Keys) private() [][]byte { return [][]byte{s.raw[0], s.raw[2]} }

// p31Seen are all private keys of this process, by the first bytes.
var p31Seen = make(map[string]string)

const p31Runs = 24

func p31Generate(k *Case) {
	suite := 1 + k.R.Intn(2)
	var all []*p31Keys
	for i := 0; i < p31Runs; i++ {
		s := p31Run(k, suite)
		name := fmt.Sprintf("%s run %d of case %d", []string{"p256", "ed25519"}[suite-1], i, k.Idx)
		k.Assert(bytes.Equal(s.sign.Public().Bytes(), s.raw[1]) && bytes.Equal(s.check.Bytes(), s.raw[1]), "%s: the signing public key does not belong to the private key", name)
		k.Assert(bytes.Equal(s.prove.PublicKey().Bytes(), s.raw[3]) && bytes.Equal(s.vrf.Bytes(), s.raw[3]), "%s: the VRF public key does not belong to the private key", name)
		msg := k.R.Bytes(k.R.Intn(100))
		sig, err := s.sign.Sign(msg)
		k.Assert(err == nil && s.check.Verify(msg, sig), "%s: signing and verifying a message failed: %v", name, err)
		k.Assert(!s.check.Verify(append([]byte{1}, msg...), sig), "%s: the signature is valid for another message", name)
		out, proof := s.prove.Prove(msg)
		got, err := s.vrf.Verify(msg, proof)
		k.Assert(err == nil && bytes.Equal(got, out), "%s: the VRF output does not verify: %v", name, err)
		for j, p := range s.private() {
			what := []string{"signing", "VRF"}[j]
			k.Assert(len(p) == 32, "%s: the %s private key has %d bytes", name, what, len(p))
			for b := 0; b+8 <= len(p); b += 8 {
				key := string(p[b : b+8])
				if prev, ok := p31Seen[key]; ok {
					k.Fail("%s: bytes %d to %d of the %s private key repeat those of %s", name, b, b+8, what, prev)
				}
				p31Seen[key] = fmt.Sprintf("%s, %s private key", name, what)
			}
		}
		if len(all) > 0 {
			prev := all[len(all)-1]
			k.Assert(!prev.check.Verify(msg, sig), "%s: the signature is valid for the key of another run", name)
			_, err := prev.vrf.Verify(msg, proof)
			k.Assert(err != nil, "%s: the VRF proof is valid for the key of another run", name)
		}
		all = append(all, s)
		k.Eval("run of suite %d: %x", suite, s.raw[1][:4])
		k.Count("runs of the command", 1)
	}
	// Keys are not partly constant and not derived from each other: no bit is
	// the same in all of them. The odds of an accident are 2^-23 for a bit
	// in p31Runs runs, so one is allowed.
	for j, what := range []string{"signing private key", "VRF private key", "difference of the private keys"} {
		and, or := bytes.Repeat([]byte{0xff}, 32), make([]byte, 32)
		for _, s := range all {
			for i := range and {
				b := byte(0)
				switch j {
				case 0:
					b = s.raw[0][i]
				case 1:
					b = s.raw[2][i]
				case 2:
					b = s.raw[0][i] ^ s.raw[2][i]
				}
				and[i] &= b
				or[i] |= b
			}
		}
		fixed := 0
		for i := range and {
			fixed += bits.OnesCount8(and[i] | ^or[i])
		}
		k.Assert(fixed <= 1, "%d bits of the %s are the same in %d runs", fixed, what, p31Runs)
	}
}

func p31Usage(k *Case) {
	for _, args := range [][]string{{}, {""}, {"P256"}, {"p-256"}, {"ed448"}, {"rsa"}, {"--help-me"}, {"ed25519x"}} {
		out, err := exec.Command(os.Getenv("KCHECK_GENKEYS"), args...).Output()
		k.Assert(err != nil, "generate-keys %q succeeded", args)
		k.Assert(!strings.Contains(string(out), "Key"), "generate-keys %q printed a key", args)
		k.Eval("usage %q", args)
	}
}

// withKeys is a world with given keys.
func p31World(k *Case, cfg WorldCfg, s, other *p31Keys) *World {
	w := newWorld(k, cfg)
	w.priv.SignatureKey, w.priv.VrfKey = s.sign, s.prove
	switch cfg.Mode {
	case structs.ThirdPartyManagement:
		w.leafKey, w.priv.LeafPublicKey = other.sign, other.check
	case structs.ThirdPartyAuditing:
		w.audKey, w.priv.AuditorPublicKey = other.sign, other.check
	}
	w.pub = w.priv.Public()
	w.reload()
	return w
}

// deploy: the log has the printed private keys, its clients the printed public
// keys.
func p31Deploy(k *Case) {
	cfg := genCfg(k.R)
	s, other, stranger := p31Run(k, cfg.Suite), p31Run(k, cfg.Suite), p31Run(k, cfg.Suite)
	w := p31World(k, cfg, s, other)
	pub := *w.pub
	pub.SignatureKey, pub.VrfKey = s.check, s.vrf
	w.pub = &pub
	w.Grow(k.R.Range(2, 8))
	cl := w.newClient()
	for i := 0; i < 6; i++ {
		l := w.names[k.R.Intn(len(w.names))]
		c := len(w.cur[string(l)])
		_, out := cl.Search(l, nil)
		if c == 0 {
			k.Assert(out.srv == nil && isNotFound(out.err), "search for a missing label: %v", out)
			continue
		}
		k.Assert(out.ok(), "search with generated keys: %v", out)
		cl.checkState()
		k.Eval("deploy suite %d mode %s", cfg.Suite, modeNames[cfg.Mode])
		k.Count("searches with generated keys", 1)
		for _, what := range []string{"signature", "VRF"} {
			bad := pub
			if what == "VRF" {
				bad.VrfKey = stranger.vrf
			} else {
				bad.SignatureKey = stranger.check
			}
			c2 := &Client{w, newCStore(w.r), nil}
			c2.c = must(transparency.NewClient(&bad, c2.st))
			_, out := c2.Search(l, nil)
			k.Assert(!decided2(out), "search by a client with another %s key was accepted", what)
			k.Assert(c2.st.state == nil, "rejected search left a state")
		}
		w.Grow(1)
	}
}

func decided2(o outcome) bool { return o.srv == nil && (o.err == nil || isNotFound(o.err)) }

// configs: all modes, all keys, lifetimes around the monitoring window.
func p31Configs(k *Case) {
	r := k.R
	cs := suiteByID(1 + r.Intn(2))
	sign, vrfKey := genSigningKey(r, cs), must(cs.ParseVRFPrivateKey(keyBytes(r)))
	leaf, aud := genSigningKey(r, cs).Public(), genSigningKey(r, cs).Public()
	rmws := []uint64{0, 1, 2, 100, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0) - 1, ^uint64(0), r.Uint64() >> uint(r.Intn(64))}
	for _, rmw := range rmws {
		lives := map[uint64]bool{0: true, 1: true, rmw - 1: true, rmw: true, rmw + 1: true, rmw / 2: true, 2 * rmw: true, ^uint64(0): true, r.Uint64() >> uint(r.Intn(64)): true}
		for _, life := range sortedPos(lives) {
			for _, mode := range []structs.DeploymentMode{0, 1, 2, 3, 4, 5, 255} {
				for keys := 0; keys < 4; keys++ {
					c := structs.Config{Suite: cs, Mode: mode, MaxAhead: huge, MaxBehind: huge, ReasonableMonitoringWindow: rmw, MaximumLifetime: life}
					if keys&1 != 0 {
						c.LeafPublicKey = leaf
					}
					if keys&2 != 0 {
						c.AuditorPublicKey = aud
					}
					priv := structs.PrivateConfig{SignatureKey: sign, VrfKey: vrfKey, Config: c}
					valid := life == 0 || life > rmw
					switch mode {
					case structs.ContactMonitoring:
						valid = valid && keys == 0
					case structs.ThirdPartyManagement:
						valid = valid && keys == 1
					case structs.ThirdPartyAuditing:
						valid = valid && keys == 2
					default:
						valid = false
					}
					cl, err := transparency.NewClient(priv.Public(), newCStore(r))
					if valid {
						k.Assert(err == nil && cl != nil, "configuration with mode %d, leaf key %t, auditor key %t, window %d and lifetime %d was rejected: %v", mode, keys&1 != 0, keys&2 != 0, rmw, life, err)
						_, _, err := cl.GreatestVersionSearch([]byte("x"))
						k.Assert(err == nil, "a new client can not make a search request: %v", err)
					} else {
						k.Assert(err != nil, "configuration with mode %d, leaf key %t, auditor key %t, window %d and lifetime %d was accepted", mode, keys&1 != 0, keys&2 != 0, rmw, life)
					}
					k.Eval("config mode %d keys %d life %d %t", mode, keys, cmpU(life, rmw), valid)
					k.Count("configurations", 1)
				}
			}
		}
	}
}

func cmpU(a, b uint64) int {
	switch {
	case a == 0:
		return -2
	case a < b:
		return -1
	case a == b:
		return 0
	}
	return 1
}

// accepted: every accepted configuration can be run.
func p31Accepted(k *Case) {
	r := k.R
	cfg := genCfg(r)
	cfg.RMW = pick(r, uint64(0), 1, 2, 50, 1000, huge, ^uint64(0)-1)
	cfg.Start = pick(r, uint64(1_700_000_000_000), 0, 3)
	switch r.Intn(3) {
	case 0:
		cfg.Life = cfg.RMW + 1
	case 1:
		cfg.Life = cfg.RMW + 1 + r.Uint64()>>20
	}
	if cfg.Life <= cfg.RMW {
		cfg.Life = 0
	}
	w := newWorldStore(k, cfg, memory.NewTransparencyStore())
	cl := w.newClient()
	for i := 0; i < 8; i++ {
		w.setNow(w.now + pick(r, uint64(0), 1, 30, 2000))
		l := w.names[r.Intn(len(w.names))]
		w.MustMutate([]Add{{Label: l, Value: w.newValue()}}, nil)
		res, out := cl.Search(l, nil)
		if !out.ok() {
			// The newest version of a label has just been added.
			k.Fail("search for a label of a log with window %d and lifetime %d, updated just now: %v", cfg.RMW, cfg.Life, out)
		}
		vs := w.cur[string(l)]
		k.Assert(res.Version != nil && *res.Version == uint32(len(vs)-1) && bytes.Equal(res.Value.Value, vs[len(vs)-1].Value), "search returned something else than the newest version")
		cl.checkState()
		k.Eval("accepted mode %s rmw %d life %d", modeNames[cfg.Mode], cfg.RMW, cmpU(cfg.Life, cfg.RMW))
		k.Count("searches with accepted configurations", 1)
	}
}
