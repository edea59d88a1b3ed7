//go:build verif

// A little simulation of a deployment, used by the demonstrations.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"sort"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

var now uint64 = 1_000_000

func init() { algorithms.Clock = func() uint64 { return now } }

func must[T any](x T, err error) T {
	if err != nil {
		fail("unexpected error: %v", err)
	}
	return x
}

func ok(err error) { must(0, err) }

func fail(format string, args ...any) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func ptr[T any](x T) *T { return &x }

var cs suites.CipherSuite = suites.KTSha256Ed25519{}

func key(b byte) suites.SigningPrivateKey {
	return must(cs.ParseSigningPrivateKey(bytes.Repeat([]byte{b}, 32)))
}

type world struct {
	priv    structs.PrivateConfig
	pub     *structs.PublicConfig
	store   *memory.TransparencyStore
	tree    *transparency.Tree
	updates chan transparency.UpdateRequest
	leaves  [][]byte
}

func newWorld(config structs.Config) *world {
	config.Suite = cs
	w := &world{
		priv:  structs.PrivateConfig{SignatureKey: key(1), VrfKey: must(cs.ParseVRFPrivateKey(bytes.Repeat([]byte{2}, 32))), Config: config},
		store: memory.NewTransparencyStore(), updates: make(chan transparency.UpdateRequest),
	}
	w.pub = w.priv.Public()
	w.reload()
	return w
}

func contactMonitoring(window, life uint64) structs.Config {
	return structs.Config{Mode: structs.ContactMonitoring, MaxAhead: 1 << 50, MaxBehind: 1 << 50, ReasonableMonitoringWindow: window, MaximumLifetime: life}
}

func (w *world) reload() { w.tree = must(transparency.NewTree(w.priv, w.store, w.updates)) }

func (w *world) n() uint64 { return uint64(len(w.leaves)) }

// mutate adds a log entry: pairs is label, value, label, value...
func (w *world) mutate(pairs ...string) *structs.AuditorUpdate { return w.mutateRemove(nil, pairs...) }

func (w *world) mutateRemove(remove [][]byte, pairs ...string) *structs.AuditorUpdate {
	var add []transparency.LabelValue
	for i := 0; i < len(pairs); i += 2 {
		add = append(add, transparency.LabelValue{Label: []byte(pairs[i]), Value: structs.UpdateValue{Value: []byte(pairs[i+1])}})
	}
	up := must(w.tree.Mutate(add, remove))
	raw := must(w.store.BatchGet([]uint64{w.n()}))
	entry := must(structs.NewLogEntry(cs, bytes.NewBuffer(raw[w.n()])))
	w.leaves = append(w.leaves, must(entry.Hash(cs)))
	return up
}

func (w *world) vrf(label string, ver uint32) []byte {
	out, _ := w.priv.VrfKey.Prove(must(structs.Marshal(&structs.VrfInput{Label: []byte(label), Version: ver})))
	return out
}

// version stores a version of a label and returns its prefix tree entry.
func (w *world) version(label string, ver uint32, value string) prefix.Entry {
	oav := &structs.OpeningAndValue{Opening: commitments.GenerateOpening(cs), Value: structs.UpdateValue{Value: []byte(value)}}
	ok(w.store.PutVersion([]byte(label), ver, must(structs.Marshal(oav))))
	cv := must(structs.Marshal(&structs.CommitmentValue{Label: []byte(label), Version: ver, Update: oav.Value}))
	return prefix.Entry{VrfOutput: w.vrf(label, ver), Commitment: commitments.Commit(cs, oav.Opening, cv)}
}

// index makes the server believe that the versions of the label were created
// in these log entries.
func (w *world) index(label string, pos ...uint64) {
	var buf []byte
	last := uint64(0)
	for _, p := range pos {
		buf = binary.AppendUvarint(buf, p-last)
		last = p
	}
	ok(w.store.PutIndex([]byte(label), buf))
}

// evil adds a log entry with any changes to the prefix tree.
func (w *world) evil(timestamp uint64, add []prefix.Entry, remove [][]byte) {
	n := w.n()
	sort.Slice(add, func(i, j int) bool { return bytes.Compare(add[i].VrfOutput, add[j].VrfOutput) < 0 })
	root, _, _, err := prefix.NewTree(cs, w.store.PrefixStore()).Mutate(n, add, remove)
	ok(err)
	entry := &structs.LogEntry{Timestamp: timestamp, PrefixTree: root}
	ok(w.store.Put(n, must(structs.Marshal(entry))))
	w.leaves = append(w.leaves, must(entry.Hash(cs)))
	subtrees := must(log.NewTree(cs, w.store.LogStore()).Append(n, w.leaves[n]))
	logRoot := must(log.Root(cs, n+1, subtrees))
	tbs := must(structs.Marshal(&structs.TreeHeadTBS{Config: w.pub, TreeSize: n + 1, Root: logRoot}))
	head := &structs.TreeHead{TreeSize: n + 1, Signature: must(w.priv.SignatureKey.Sign(tbs))}
	ok(w.store.PutTreeHead(must(structs.Marshal(head))))
	w.reload()
}

// rec is the state of a label; cstore is a client's storage.
type rec struct {
	raw      []byte
	terminal uint64
}

type cstore struct {
	state  []byte
	labels map[string]rec
}

func (s *cstore) GetState() ([]byte, error) { return bytes.Clone(s.state), nil }
func (s *cstore) GetLabelState(l []byte) ([]byte, error) {
	return bytes.Clone(s.labels[string(l)].raw), nil
}
func (s *cstore) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	for l, r := range s.labels {
		if r.terminal <= cutoff {
			return []byte(l), bytes.Clone(r.raw), nil
		}
	}
	return nil, nil, nil
}
func (s *cstore) PutState(raw []byte) error { s.state = bytes.Clone(raw); return nil }
func (s *cstore) PutLabelState(raw, l, rawLabel []byte, terminal uint64) error {
	s.state = bytes.Clone(raw)
	if rawLabel == nil {
		delete(s.labels, string(l))
	} else {
		s.labels[string(l)] = rec{bytes.Clone(rawLabel), terminal}
	}
	return nil
}

type client struct {
	w  *world
	st *cstore
	c  *transparency.Client
}

func (w *world) client() *client {
	st := &cstore{labels: make(map[string]rec)}
	return &client{w, st, must(transparency.NewClient(w.pub, st))}
}

func (c *client) label(l string) *structs.ClientLabelState {
	r, found := c.st.labels[l]
	if !found {
		return nil
	}
	return must(structs.NewClientLabelState(cs, bytes.NewBuffer(bytes.Clone(r.raw))))
}

func (c *client) state() *structs.ClientState {
	return must(structs.NewClientState(c.w.pub, bytes.NewBuffer(bytes.Clone(c.st.state))))
}

var ctx = context.Background()

// search returns the version and value found.
func (c *client) search(l string, ver *uint32) (uint32, string, error) {
	var (
		req *structs.SearchRequest
		vf  transparency.VerifyFunc[*structs.SearchResponse]
		err error
	)
	if ver == nil {
		req, vf, err = c.c.GreatestVersionSearch([]byte(l))
	} else {
		req, vf, err = c.c.FixedVersionSearch([]byte(l), *ver)
	}
	if err != nil {
		return 0, "", err
	}
	res, err := c.w.tree.Search(ctx, req)
	if err != nil {
		return 0, "", err
	} else if err := vf(res); err != nil {
		return 0, "", err
	} else if ver != nil {
		return *ver, string(res.Value.Value), nil
	}
	return *res.Version, string(res.Value.Value), nil
}

func (c *client) ownerInit(l string) error {
	req, vf, err := c.c.OwnerInit([]byte(l))
	if err != nil {
		return err
	}
	res, err := c.w.tree.OwnerInit(ctx, req)
	if err != nil {
		return err
	}
	return vf(res)
}

// monitor performs one round of monitoring, and reports whether there was
// something to do.
func (c *client) monitor() (bool, error) {
	req, vf, err := c.c.Monitor()
	if err != nil {
		return false, err
	}
	var res structs.Marshaller
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		res, err = c.w.tree.ContactMonitor(ctx, req)
	case *structs.OwnerMonitorRequest:
		res, err = c.w.tree.OwnerMonitor(ctx, req)
	default:
		return false, nil
	}
	if err != nil {
		return true, err
	}
	return true, vf(res)
}

// update creates new versions, and learns about all others.
func (c *client) update(l string, values ...string) error {
	var raw [][]byte
	for _, v := range values {
		raw = append(raw, []byte(v))
	}
	req, sv, err := c.c.Update([]byte(l), raw)
	if err != nil {
		return err
	}
	ch, err := c.w.tree.Update(ctx, req)
	if err != nil {
		return err
	}
	for {
		select {
		case u := <-c.w.updates:
			var pairs []string
			for _, v := range u.Values {
				pairs = append(pairs, string(u.Label), string(v.Value))
			}
			c.w.mutate(pairs...)
			u.Response <- c.w.n() - 1
		case res, open := <-ch:
			if !open {
				return nil
			} else if res.Err != nil {
				return res.Err
			} else if err := sv.Verify(res.Out); err != nil {
				return err
			}
		}
	}
}

func (w *world) versions(label string, vers ...uint32) (out []prefix.Entry) {
	for _, v := range vers {
		out = append(out, w.version(label, v, fmt.Sprintf("value-%d", v)))
	}
	return
}
