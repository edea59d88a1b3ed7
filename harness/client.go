package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

type labelRec struct {
	raw      []byte
	terminal uint64
}

// CStore is a client's local storage.
type CStore struct {
	r      *Rand
	state  []byte
	labels map[string]labelRec
	puts   int
	only   []byte  // if set, the only label that is reported as stale
	cutoff *uint64 // what GetStaleLabel was last called with
}

func newCStore(r *Rand) *CStore { return &CStore{r: r, labels: make(map[string]labelRec)} }

func (s *CStore) GetState() ([]byte, error) { return bytes.Clone(s.state), nil }

func (s *CStore) GetLabelState(label []byte) ([]byte, error) {
	return bytes.Clone(s.labels[string(label)].raw), nil
}

func (s *CStore) staleLabels(cutoff uint64) []string {
	var out []string
	for l, rec := range s.labels {
		if rec.terminal <= cutoff && (s.only == nil || string(s.only) == l) {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

func (s *CStore) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	s.cutoff = &cutoff
	stale := s.staleLabels(cutoff)
	if len(stale) == 0 {
		return nil, nil, nil
	}
	l := stale[s.r.Intn(len(stale))]
	return []byte(l), bytes.Clone(s.labels[l].raw), nil
}

func (s *CStore) PutState(raw []byte) error {
	s.puts++
	s.state = bytes.Clone(raw)
	return nil
}

func (s *CStore) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	s.puts++
	s.state = bytes.Clone(raw)
	if rawLabel == nil {
		delete(s.labels, string(label))
	} else {
		s.labels[string(label)] = labelRec{bytes.Clone(rawLabel), terminal}
	}
	return nil
}

func (s *CStore) clone() *CStore {
	out := &CStore{r: s.r, state: s.state, labels: make(map[string]labelRec), puts: s.puts}
	for l, rec := range s.labels {
		out.labels[l] = rec
	}
	return out
}

func (s *CStore) equal(o *CStore) bool {
	return bytes.Equal(s.state, o.state) && reflect.DeepEqual(s.labels, o.labels)
}

// Client is the real client over a CStore.
type Client struct {
	w  *World
	st *CStore
	c  *transparency.Client
}

func (w *World) newClient() *Client {
	st := newCStore(w.r)
	return &Client{w, st, must(transparency.NewClient(w.pub, st))}
}

// clone returns an independent client in the same state.
func (cl *Client) clone() *Client {
	st := cl.st.clone()
	return &Client{cl.w, st, must(transparency.NewClient(cl.w.pub, st))}
}

func (cl *Client) State() *structs.ClientState {
	if cl.st.state == nil {
		return nil
	}
	buf := bytes.NewBuffer(bytes.Clone(cl.st.state))
	s, err := structs.NewClientState(cl.w.pub, buf)
	if err != nil || buf.Len() != 0 {
		cl.w.k.Fail("stored client state does not decode: %v", err)
	}
	return s
}

func (cl *Client) Label(label []byte) *structs.ClientLabelState {
	rec, ok := cl.st.labels[string(label)]
	if !ok {
		return nil
	}
	buf := bytes.NewBuffer(bytes.Clone(rec.raw))
	s, err := structs.NewClientLabelState(cl.w.cs, buf)
	if err != nil || buf.Len() != 0 {
		cl.w.k.Fail("stored label state does not decode: %v", err)
	}
	return s
}

// size is the size of the tree the client retains, or 0.
func (cl *Client) size() uint64 {
	if s := cl.State(); s != nil {
		return s.TreeHead.TreeSize
	}
	return 0
}

func isNotFound(err error) bool { return errors.Is(err, algorithms.ErrLabelNotFound) }
func isExpired(err error) bool  { return errors.Is(err, algorithms.ErrLabelExpired) }

// outcome of an operation
type outcome struct {
	srv error // error of the server or of the wire
	err error // error of the client
}

func (o outcome) ok() bool { return o.srv == nil && o.err == nil }
func (o outcome) String() string {
	return fmt.Sprintf("server error: %v, client error: %v", o.srv, o.err)
}

func (cl *Client) trySearchReq(label []byte, ver *uint32) (*structs.SearchRequest, transparency.VerifyFunc[*structs.SearchResponse], error) {
	if ver == nil {
		return cl.c.GreatestVersionSearch(label)
	}
	return cl.c.FixedVersionSearch(label, *ver)
}

func (cl *Client) searchReq(label []byte, ver *uint32) (*structs.SearchRequest, transparency.VerifyFunc[*structs.SearchResponse]) {
	req, vf, err := cl.trySearchReq(label, ver)
	if err != nil {
		cl.w.k.Fail("client can not make a search request: %v", err)
	}
	return req, vf
}

// Search performs a search at the client's world.
func (cl *Client) Search(label []byte, ver *uint32) (*structs.SearchResponse, outcome) {
	return cl.SearchAt(cl.w, label, ver)
}

func (cl *Client) SearchAt(w *World, label []byte, ver *uint32) (*structs.SearchResponse, outcome) {
	req, vf := cl.searchReq(label, ver)
	res, err := w.Search(req)
	if err != nil {
		return nil, outcome{srv: err}
	}
	return res, outcome{err: vf(res)}
}

// Monitor performs one round of monitoring. It returns nil if there is nothing
// to do.
func (cl *Client) Monitor() (structs.Marshaller, outcome) { return cl.MonitorAt(cl.w) }

func (cl *Client) MonitorAt(w *World) (structs.Marshaller, outcome) {
	req, vf, err := cl.c.Monitor()
	if err != nil {
		return nil, outcome{err: err}
	} else if req == nil || reflect.ValueOf(req).IsNil() {
		return nil, outcome{}
	}
	res, err := w.answerMonitor(req)
	if err != nil {
		return req, outcome{srv: err}
	}
	return req, outcome{err: vf(res)}
}

func (w *World) answerMonitor(req structs.Marshaller) (structs.Marshaller, error) {
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		res, err := w.ContactMonitor(req)
		if err != nil {
			return nil, err
		}
		return res, nil
	case *structs.OwnerMonitorRequest:
		res, err := w.OwnerMonitor(req)
		if err != nil {
			return nil, err
		}
		return res, nil
	}
	panic("harness: unexpected request")
}

func (cl *Client) OwnerInit(label []byte) (*structs.OwnerInitRequest, *structs.OwnerInitResponse, outcome) {
	return cl.OwnerInitAt(cl.w, label)
}

func (cl *Client) OwnerInitAt(w *World, label []byte) (*structs.OwnerInitRequest, *structs.OwnerInitResponse, outcome) {
	req, vf, err := cl.c.OwnerInit(label)
	if err != nil {
		return nil, nil, outcome{err: err}
	}
	res, err := w.OwnerInit(req)
	if err != nil {
		return req, nil, outcome{srv: err}
	}
	return req, res, outcome{err: vf(res)}
}

// dle is the rightmost distinguished log entry of the tree the client retains,
// or -1.
func (cl *Client) dle() int {
	n := cl.size()
	return refRightmostDLE(cl.w.ts()[:n], cl.w.cfg.RMW)
}

// checkState compares the state a client retained with the true tree.
func (cl *Client) checkState() {
	k, w := cl.w.k, cl.w
	s := cl.State()
	if s == nil {
		return
	}
	n := s.TreeHead.TreeSize
	k.Assert(n >= 1 && n <= w.n(), "client retains a tree of size %d, the log has size %d", n, w.n())
	want := refFullSubtrees(w.leaves(n))
	k.Assert(len(want) == len(s.FullSubtrees), "client retains %d full subtrees for size %d", len(s.FullSubtrees), n)
	for i := range want {
		k.Assert(bytes.Equal(want[i], s.FullSubtrees[i]), "client retains wrong full subtree %d of %d", i, n)
	}
	for pos, e := range s.LogEntries {
		k.Assert(pos < n && e.Timestamp == w.hist[pos].Ts && bytes.Equal(e.PrefixTree, w.hist[pos].Root), "client retains wrong log entry %d", pos)
	}
	for _, pos := range bstFrontier(n) {
		_, ok := s.LogEntries[pos]
		k.Assert(ok, "client does not retain frontier log entry %d of %d", pos, n)
	}
	tbs := mustMarshal(&structs.TreeHeadTBS{Config: w.pub, TreeSize: n, Root: refLogRoot(w.leaves(n))})
	k.Assert(w.pub.SignatureKey.Verify(tbs, s.TreeHead.Signature), "client retains a tree head whose signature is not valid for its size %d", n)
	if w.cfg.Mode == structs.ThirdPartyAuditing {
		a := s.AuditorTreeHead
		k.Assert(a != nil && a.TreeSize >= 1 && a.TreeSize <= n, "client retains wrong auditor tree head")
		tbs := mustMarshal(&structs.AuditorTreeHeadTBS{Config: w.pub, Timestamp: a.Timestamp, TreeSize: a.TreeSize, Root: refLogRoot(w.leaves(a.TreeSize))})
		k.Assert(w.pub.AuditorPublicKey.Verify(tbs, a.Signature), "client retains an auditor tree head whose signature is not valid")
	}
}

func verStr(v *uint32) string {
	if v == nil {
		return "greatest"
	}
	return fmt.Sprint(*v)
}
