//go:build P12

package main

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

func init() {
	helpers["p12"] = p12Helper
	register(&Check{
		ID: "P12", Level: "fault_enumeration", Min: 2500,
		Rule:        "cut: every mutation's bytes in the database's journal are cut off at record boundaries and elsewhere (the rest missing, zero or garbage); trace: the system calls of a process that runs mutations, big values and restarts over the database are recorded, and the files as a crash of the process or of the machine (unsynced bytes lost, torn or zero) would leave them are rebuilt after every call; fail: writes of the database fail at every length. Each state is opened by the real code, has to be the one before or after the mutation (after, once the commit had returned), and is compared with a model and used by the server, clients and an auditor; an evaluation is one such state",
		Assumptions: []string{"the file system keeps the order of creations, renames and removals, and a synced prefix of a file"},
		Run:         runP12,
	})
}

func p12Cfg(r *Rand) WorldCfg {
	cfg := genCfg(r)
	if r.P(0.5) {
		cfg.Suite = 2
	}
	return cfg
}

func (w *World) anyRemoved() bool {
	for _, e := range w.hist {
		if len(e.Removed) > 0 {
			return true
		}
	}
	return false
}

// step mutates the world in the way of the histories of this check.
func (w *World) p12Step(big bool) {
	r := w.r
	w.advance()
	adds := w.genAdds()
	if len(adds) == 0 && r.P(0.8) {
		adds = []Add{{Label: pick(r, w.names...), Value: w.newValue()}}
	}
	if big && r.P(0.6) {
		adds = append(adds, Add{Label: pick(r, w.names...), Value: bytes.Repeat(r.Bytes(1), r.Range(300_000, 1_500_000))})
	}
	var removes [][]byte
	if r.P(0.15) {
		for _, l := range w.removable() {
			if r.P(0.5) {
				removes = append(removes, l)
			}
		}
	}
	w.MustMutate(adds, removes)
}

// p12Bulk makes a mutation that writes many keys.
func (w *World) p12Bulk() {
	r := w.r
	w.advance()
	var adds []Add
	for i := r.Range(30, 150); i > 0; i-- {
		adds = append(adds, Add{Label: pick(r, w.names...), Value: r.Bytes(1 + r.Intn(100))})
	}
	w.MustMutate(adds, nil)
	w.k.Count("mutations that write many keys", 1)
}

// recovered checks the database in dir, which has to be that of the first lo..hi
// entries of w. It returns the number of entries that it has.
func (w *World) recovered(what, dir string, lo, hi uint64, deep bool) uint64 {
	k := w.k
	store, done, err := openLDB(dir)
	k.Assert(err == nil, "%s: database can not be opened: %v", what, err)
	defer done()
	tree, err := transparency.NewTree(w.priv, store, make(chan transparency.UpdateRequest))
	k.Assert(err == nil, "%s: tree can not be loaded: %v", what, err)
	n := uint64(0)
	if h := tree.TreeHead(); h != nil {
		n = h.TreeSize
	}
	k.Assert(n >= lo && n <= hi, "%s: tree has %d entries instead of between %d and %d", what, n, lo, hi)
	c := w.over(store, n)
	c.tree = tree
	c.updates = make(chan transparency.UpdateRequest)
	hasAud := true
	if w.cfg.Mode == structs.ThirdPartyAuditing {
		_, aud, err := store.GetTreeHead()
		k.Assert(err == nil, "%s: reading tree head: %v", what, err)
		hasAud = aud != nil
		if hasAud {
			h, err := structs.NewAuditorTreeHead(bytes.NewBuffer(aud))
			k.Assert(err == nil, "%s: auditor tree head does not decode", what)
			k.Assert(h.TreeSize <= n, "%s: auditor tree head is for %d entries of %d", what, h.TreeSize, n)
			c.audSize = h.TreeSize
		}
	}
	c.inspect(what, deep && hasAud && !c.anyRemoved())
	if n == 0 {
		for _, l := range w.names {
			raw, err := store.GetVersion(l, 0)
			k.Assert(err == nil && raw == nil, "%s: a version is stored in an empty log", what)
		}
	}
	if deep {
		// The log continues.
		c.setNow(max(c.now, w.now))
		c.advance()
		c.MustMutate(c.genAdds(), nil)
		if w.cfg.Mode == structs.ThirdPartyAuditing && c.hist[n].Update != nil {
			store := &auditorStore{}
			a := newAuditor(k, w.pub, w.audKey, store)
			known := true
			for i := uint64(0); i <= n && known; i++ {
				if c.hist[i].Update == nil || len(c.hist[i].Removed) > 0 {
					known = false
					break
				}
				err := a.Process(wireUpdate(k, w.cs, c.hist[i].Update))
				k.Assert(err == nil, "%s: auditor rejects entry %d of %d: %v", what, i, n, err)
			}
		}
		c.inspect(what+", next", !c.anyRemoved())
	}
	return n
}

func runP12(c *Ctx) {
	signal.Ignore(syscall.SIGXFSZ)
	c.Each("cut", c.N(48, 1200), p12Cut)
	c.Each("trace", c.N(12, 240), p12Trace)
	c.Each("fail", c.N(32, 800), p12Fail)
	c.Each("commit", c.N(40, 400), p12Direct)
}

// grown returns the bytes that were appended to a single file, or nothing if
// something else happened, too.
func grown(before, after map[string][]byte) (name string, from int) {
	for f, b := range after {
		if f == "LOG" || f == "LOCK" {
			continue
		}
		a, ok := before[f]
		if !ok || !bytes.HasPrefix(b, a) {
			return "", 0
		} else if len(a) == len(b) {
			continue
		} else if name != "" {
			return "", 0
		}
		name, from = f, len(a)
	}
	for f := range before {
		if _, ok := after[f]; !ok {
			return "", 0
		}
	}
	return name, from
}

// cutsOf picks where to cut the bytes [from, to) of a journal: around the
// records and blocks, and anywhere else.
func cutsOf(r *Rand, raw []byte, from, max int) []int {
	set := map[int]bool{from: true, len(raw): true, len(raw) - 1: true, from + 1: true, from + 7: true}
	for p := from; p+7 <= len(raw); {
		if left := 32768 - p%32768; left < 7 {
			p += left
			continue
		}
		n := int(raw[p+4]) | int(raw[p+5])<<8
		set[p] = true
		set[p+7] = true
		set[p+7+n/2] = true
		p += 7 + n
	}
	for i := 0; i < 8; i++ {
		set[from+r.Intn(len(raw)-from+1)] = true
	}
	var out []int
	for p := range set {
		if p >= from && p <= len(raw) {
			out = append(out, p)
		}
	}
	sort.Ints(out)
	for len(out) > max {
		i := 1 + r.Intn(len(out)-2)
		out = append(out[:i], out[i+1:]...)
	}
	return out
}

func p12Cut(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	store, done, err := openLDB(filepath.Join(dir, "live"))
	check(err)
	defer func() { done() }()
	w := newWorldStore(k, p12Cfg(r), store)
	live := filepath.Join(dir, "live")
	for i, no := r.Range(3, 7), 0; i > 0; i-- {
		if r.P(0.15) && w.n() > 0 {
			// A restart. What is in the journal goes elsewhere.
			done()
			store, done, err = openLDB(live)
			k.Assert(err == nil, "database can not be opened again: %v", err)
			w.store = store
			w.reload()
			time.Sleep(5 * time.Millisecond)
		}
		before := dirFiles(live)
		n := w.n()
		var after map[string][]byte
		bulk := i == 1 && k.Idx%4 == 0 && w.cfg.Mode != structs.ThirdPartyAuditing
		if w.cfg.Mode == structs.ThirdPartyAuditing {
			// The auditor's tree head is stored later, by a commit of its own.
			after = w.mutateAndCopy(live, r.P(0.1))
		} else {
			if bulk {
				w.p12Bulk()
			} else {
				w.p12Step(r.P(0.1))
			}
			after = dirFiles(live)
		}
		name, from := grown(before, after)
		if name == "" {
			k.Count("mutations with several files changed", 1)
			writeFiles(filepath.Join(dir, "copy"), after)
			w.recovered("after the commit", filepath.Join(dir, "copy"), n+1, n+1, true)
			removeDir(filepath.Join(dir, "copy"))
			continue
		}
		raw := after[name]
		for _, cut := range cutsOf(r, raw, from, 14) {
			tail := r.Intn(3)
			files := make(map[string][]byte, len(after))
			for f, b := range after {
				files[f] = b
			}
			b := bytes.Clone(raw[:cut])
			what := fmt.Sprintf("%d of %d bytes of a mutation were written", cut-from, len(raw)-from)
			lo, hi := n, n+1
			if cut == len(raw) {
				lo = n + 1
			} else if tail == 1 {
				b = append(b, make([]byte, len(raw)-cut)...)
				what += ", zeros follow"
			} else if tail == 2 {
				b = append(b, r.Bytes(1+r.Intn(len(raw)-cut))...)
				what += ", garbage follows"
			}
			files[name] = b
			no++
			copyDir := filepath.Join(dir, fmt.Sprint("copy", no))
			writeFiles(copyDir, files)
			got := w.recovered(what, copyDir, lo, hi, r.P(0.3) || lo == hi)
			removeDir(copyDir)
			w.use()
			k.Eval("cut %d n%d size%d tail%d got%d", 20*(cut-from)/(len(raw)-from+1), n, len(raw)/4096, tail, got-n)
			k.Count(fmt.Sprintf("crash during a commit gave the state %s it", map[uint64]string{0: "before", 1: "after"}[got-n]), 1)
		}
	}
}

// mutateAndCopy makes a mutation and returns the files as they are when it has
// returned and the auditor's head has not been stored yet.
func (w *World) mutateAndCopy(live string, big bool) (out map[string][]byte) {
	w.beforePublish = func() { out = dirFiles(live) }
	defer func() { w.beforePublish = nil }()
	w.p12Step(big)
	return out
}

// p12Fail has the database fail to write.
func p12Fail(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	live := filepath.Join(dir, "live")
	store, done, err := openLDB(live)
	check(err)
	w := newWorldStore(k, p12Cfg(r), store)
	for i := r.Range(1, 5); i > 0; i-- {
		w.p12Step(false)
	}
	for round := 0; round < 4; round++ {
		var size int
		for f, b := range dirFiles(live) {
			if strings.HasSuffix(f, ".log") {
				size = max(size, len(b))
			}
		}
		adds := []Add{{Label: pick(r, w.names...), Value: w.newValue()}, {Label: pick(r, w.names...), Value: w.newValue()}}
		w.advance()
		n := w.n()
		var old syscall.Rlimit
		check(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		lim := old
		lim.Cur = uint64(size + r.Intn(1+r.Intn(1500)))
		w.k.Logf("files can't grow beyond %d bytes; journal has %d", lim.Cur, size)
		in, next := w.lower(adds, nil)
		check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
		update, err := w.tree.Mutate(in, nil)
		check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		lo, hi := n, n
		if err == nil {
			w.adopt(update, adds, nil, next)
			lo, hi = n+1, n+1
			k.Count("mutation succeeded", 1)
		} else {
			// The same server, and readers beside it, still see the state from before.
			k.Count("mutation failed", 1)
			w.inspect("after a failed commit", !w.anyRemoved())
			cl := w.over(w.store.Clone(), n)
			cl.tree = must(transparency.NewTree(w.priv, cl.store, nil))
			cl.inspect("clone after a failed commit", !w.anyRemoved())
			hi = n
		}
		k.Eval("fail %d n%d err %v", int(lim.Cur)-size, n, err != nil)

		files := dirFiles(live)
		copyDir := filepath.Join(dir, fmt.Sprint("copy", round))
		writeFiles(copyDir, files)
		if err != nil {
			// What was to be written may have been written after all.
			got := w.recoveredLoose("after a failed commit and a restart", copyDir, n, in)
			k.Count(fmt.Sprintf("restart after failed commit: +%d", got-n), 1)
			removeDir(copyDir)
			done()
			store, done, err = openLDB(live)
			k.Assert(err == nil, "database can not be opened after a failed write: %v", err)
			w.store = store
			w.reload()
			if w.treeHead() != nil && w.treeHead().TreeSize > n {
				break // the model does not have the new entry
			}
		} else {
			w.recovered("after a commit and a restart", copyDir, lo, hi, true)
			removeDir(copyDir)
		}
		w.use()
		if r.P(0.5) {
			w.p12Step(false)
		}
	}
	done()
}

// recoveredLoose is recovered for the case that the last mutation may have been
// written although it failed.
func (w *World) recoveredLoose(what, dir string, n uint64, in []transparency.LabelValue) uint64 {
	k := w.k
	store, done, err := openLDB(dir)
	k.Assert(err == nil, "%s: database can not be opened: %v", what, err)
	tree, err := transparency.NewTree(w.priv, store, nil)
	k.Assert(err == nil, "%s: tree can not be loaded: %v", what, err)
	got := uint64(0)
	if h := tree.TreeHead(); h != nil {
		got = h.TreeSize
	}
	k.Assert(got == n || got == n+1, "%s: tree has %d entries, not %d or one more", what, got, n)
	if got == n+1 {
		// Rebuild the model of the new entry from the stored log entry.
		c := w.over(store, n)
		c.tree = tree
		raw := must(store.BatchGet([]uint64{n}))
		k.Assert(raw[n] != nil, "%s: log entry is missing", what)
		le := must(structs.NewLogEntry(w.cs, bytes.NewBuffer(raw[n])))
		for _, a := range in {
			l := string(a.Label)
			vs := c.cur[l]
			c.cur[l] = append(vs[:len(vs):len(vs)], Ver{a.Value.Value, a.Value.Signature, n})
		}
		cur := make(map[string][]Ver)
		for l, v := range c.cur {
			cur[l] = v
		}
		c.hist = append(c.hist, Entry{Ts: le.Timestamp, Root: le.PrefixTree, Labels: cur})
		c.inspect(what, false)
		done()
		return got
	}
	done()
	return w.recovered(what, dir, n, n, true)
}

// p12Direct has several commits of the store itself, with deletions, and checks
// that each is atomic and durable, and that what isn't committed is dropped.
func p12Direct(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	live := filepath.Join(dir, "live")
	store, done, err := openLDB(live)
	check(err)
	defer func() { done() }()
	type state map[string]string
	have, pending := state{}, state{}
	cp := func(s state) state {
		out := state{}
		for a, b := range s {
			out[a] = b
		}
		return out
	}
	mutate := func() {
		lbl, ver, num := []byte(fmt.Sprint("l", r.Intn(3))), uint32(r.Intn(3)), uint64(r.Intn(4))
		val := r.Bytes(1 + r.Intn(30))
		v := string(val)
		switch r.Intn(9) {
		case 0:
			check(store.PutTreeHead(val))
			pending["head"] = v
		case 1:
			check(store.PutAuditorTreeHead(val))
			pending["aud"] = v
		case 2:
			check(store.PutIndex(lbl, val))
			pending["i"+string(lbl)] = v
		case 3:
			check(store.DeleteIndex(lbl))
			delete(pending, "i"+string(lbl))
		case 4:
			check(store.PutVersion(lbl, ver, val))
			pending[fmt.Sprintf("v%s %d", lbl, ver)] = v
		case 5:
			check(store.DeleteVersion(lbl, ver))
			delete(pending, fmt.Sprintf("v%s %d", lbl, ver))
		case 6:
			check(store.Put(num, val))
			pending[fmt.Sprintf("t%d", num)] = v
		case 7:
			check(store.LogStore().Put(num, val))
			pending[fmt.Sprintf("l%d", num)] = v
		case 8:
			check(store.PrefixStore().Put(fmt.Sprint(num), val))
			pending[fmt.Sprintf("p%d", num)] = v
		}
		val[0] ^= 0xff // the store must not keep the caller's slice
	}
	read := func(dir string) state {
		s, done, err := openLDB(dir)
		k.Assert(err == nil, "database can not be opened: %v", err)
		defer done()
		return readStore(k, s)
	}
	same := func(a, b state) bool {
		a, b = cp(a), cp(b)
		for _, s := range []state{a, b} {
			if _, ok := s["head"]; !ok {
				delete(s, "aud") // never without a tree head
			}
		}
		if len(a) != len(b) {
			return false
		}
		for x, y := range a {
			if z, ok := b[x]; !ok || y != z {
				return false
			}
		}
		return true
	}
	for i := 0; i < 12; i++ {
		for j := r.Range(1, 12); j > 0; j-- {
			mutate()
		}
		// Own changes are visible before the commit, but not to readers.
		k.Assert(same(readStore(k, store), pending), "the writer does not see its own changes: %q instead of %q", readStore(k, store), pending)
		k.Assert(same(readStore(k, store.Clone()), have), "a clone sees changes that have not been committed")
		before := dirFiles(live)
		err := store.Commit()
		k.Assert(err == nil, "commit: %v", err)
		after := dirFiles(live)
		k.Assert(same(readStore(k, store), pending), "commit changed what is stored")
		k.Assert(same(readStore(k, store.Clone()), pending), "a clone does not see what has been committed")
		name, from := grown(before, after)
		if name != "" {
			for _, cut := range cutsOf(r, after[name], from, 6) {
				files := make(map[string][]byte, len(after))
				for f, b := range after {
					files[f] = b
				}
				files[name] = after[name][:cut]
				d := filepath.Join(dir, "copy")
				writeFiles(d, files)
				got := read(d)
				if cut == len(after[name]) {
					k.Assert(same(got, pending), "what has been committed is not there after a crash: %q instead of %q", got, pending)
				} else {
					k.Assert(same(got, have) || same(got, pending), "a crash separated the changes of a commit: %q, not %q or %q", got, have, pending)
				}
				removeDir(d)
				k.Eval("direct %d %d", len(pending), 10*(cut-from)/(len(after[name])-from+1))
			}
		} else if len(after) > 0 {
			d := filepath.Join(dir, "copy")
			writeFiles(d, after)
			k.Assert(same(read(d), pending), "what has been committed is not there after a crash")
			removeDir(d)
		}
		have = cp(pending)
		if r.P(0.2) {
			done()
			store, done, err = openLDB(live)
			k.Assert(err == nil, "database can not be opened again: %v", err)
			k.Assert(same(readStore(k, store), have), "a restart changed what is stored")
		}
	}
}

func readStore(k *Case, s db.TransparencyStore) map[string]string {
	out := make(map[string]string)
	head, aud, err := s.GetTreeHead()
	k.Assert(err == nil, "GetTreeHead: %v", err)
	put := func(key string, v []byte) {
		if v != nil {
			out[key] = string(v)
		}
	}
	put("head", head)
	put("aud", aud)
	labels := [][]byte{[]byte("l0"), []byte("l1"), []byte("l2")}
	idx, err := s.BatchGetIndex(labels)
	k.Assert(err == nil && len(idx) == 3, "BatchGetIndex: %v", err)
	for i, l := range labels {
		put("i"+string(l), idx[i])
		for v := uint32(0); v < 3; v++ {
			raw, err := s.GetVersion(l, v)
			k.Assert(err == nil, "GetVersion: %v", err)
			put(fmt.Sprintf("v%s %d", l, v), raw)
		}
	}
	nums := []uint64{0, 1, 2, 3}
	m, err := s.BatchGet(nums)
	k.Assert(err == nil, "BatchGet: %v", err)
	for x, raw := range m {
		put(fmt.Sprintf("t%d", x), raw)
	}
	m, err = s.LogStore().BatchGet(nums)
	k.Assert(err == nil, "BatchGet of the log: %v", err)
	for x, raw := range m {
		put(fmt.Sprintf("l%d", x), raw)
	}
	pm, err := s.PrefixStore().BatchGet([]string{"0", "1", "2", "3"})
	k.Assert(err == nil, "BatchGet of the prefix tree: %v", err)
	for x, raw := range pm {
		put("p"+x, raw)
	}
	return out
}

// The helper process that is traced.

type p12Model struct {
	Hist []Entry
	Aud  uint64
	Now  uint64
}

func p12Helper() {
	seed, _ := strconv.ParseInt(os.Getenv("KCHECK_P12_SEED"), 10, 64)
	dir := os.Getenv("KCHECK_P12_DIR")
	k := &Case{Ctx: &Ctx{}, R: newRand(seed)}
	live := filepath.Join(dir, "live")
	mark := func(s string) { must(os.Stdout.Write([]byte(s))) }
	mark("@open\n")
	store, done, err := openLDB(live)
	check(err)
	w := newWorldStore(k, p12Cfg(k.R), store)
	for i := k.R.Range(5, 12); i > 0; i-- {
		if k.R.P(0.25) && w.n() > 0 {
			done()
			store, done, err = openLDB(live)
			check(err)
			w.store = store
			w.reload()
		}
		mark(fmt.Sprintf("@begin %d\n", w.n()))
		// Publishing the auditor's head reloads the tree after the commit, so the
		// end of the mutation is signalled from there.
		n := w.n()
		if w.cfg.Mode == structs.ThirdPartyAuditing {
			w.beforePublish = func() { mark(fmt.Sprintf("@end %d\n", n+1)) }
		}
		w.p12Step(k.Idx%2 == 0 || k.R.P(0.5))
		mark(fmt.Sprintf("@end %d\n", w.n()))
	}
	f := must(os.Create(filepath.Join(dir, "model")))
	check(gob.NewEncoder(f).Encode(&p12Model{w.hist, w.audSize, w.now}))
	check(f.Close())
}

// simFile is a file as the operating system sees it.
type simFile struct {
	data   []byte
	synced int
}

func p12Trace(k *Case) {
	r := k.R
	dir := scratchDir()
	defer removeDir(dir)
	seed := r.Int63()
	live := filepath.Join(dir, "live")
	out := filepath.Join(dir, "trace")
	cmd := exec.Command("strace", "-f", "-y", "-xx", "-s", "100000000", "-o", out,
		"-e", "trace=openat,open,creat,write,writev,pwrite64,pwritev,fsync,fdatasync,sync_file_range,msync,rename,renameat,renameat2,unlink,unlinkat,ftruncate,truncate,fallocate,link,linkat,lseek", must(os.Executable()))
	cmd.Env = append(os.Environ(), "KCHECK_HELPER=p12", "KCHECK_P12_SEED="+strconv.FormatInt(seed, 10), "KCHECK_P12_DIR="+dir, "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1")
	if msg, err := cmd.CombinedOutput(); err != nil {
		if strings.Contains(string(msg), "ptrace") || strings.Contains(err.Error(), "executable file not found") {
			k.Count("strace does not work here", 1)
			k.Skip()
		}
		k.Fail("process that makes mutations of a database failed: %v: %.2000s", err, msg)
	}
	var m p12Model
	f := must(os.Open(filepath.Join(dir, "model")))
	check(gob.NewDecoder(f).Decode(&m))
	f.Close()

	// A world with the same keys and labels.
	k2 := &Case{Ctx: k.Ctx, Name: k.Name, Idx: k.Idx, R: newRand(seed)}
	w := newWorld(k2, p12Cfg(k2.R))
	w.k, w.r = k, r
	w.hist, w.audSize = m.Hist, m.Aud
	for i := range w.hist { // gob drops what is empty
		if w.hist[i].Labels == nil {
			w.hist[i].Labels = map[string][]Ver{}
		}
	}
	w.setNow(m.Now)

	files := make(map[string]*simFile)
	pos := make(map[string]int) // fd path -> offset: each file is written by one descriptor
	lo, hi := uint64(0), uint64(0)
	opened := false
	states, no := 0, 0
	pendingCall := make(map[string]string)
	sc := bufio.NewScanner(must(os.Open(out)))
	sc.Buffer(nil, 1<<30)
	events := 0
	var lines []string
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	inLive := 0
	for _, line := range lines {
		if strings.Contains(line, "write") {
			inLive++
		}
	}
	stride := inLive/120 + 1
	writes := 0
	check2 := func(what string, torn bool) {
		if !opened || len(files) == 0 {
			return
		}
		variants := []int{0, 1}
		if torn {
			variants = []int{0, 1, 2, 3}
		}
		for _, v := range variants {
			fs := make(map[string][]byte)
			name := ""
			lost := false
			for f, s := range files {
				b := s.data
				if cut := s.synced; v > 0 && cut < len(b) {
					lost = true
					if v >= 2 {
						cut += r.Intn(len(b) - cut + 1)
					}
					t := bytes.Clone(b[:cut])
					if v == 3 && r.P(0.5) {
						t = append(t, make([]byte, len(b)-cut)...)
					}
					b = t
				}
				fs[f] = b
			}
			if v > 0 && !lost {
				continue
			}
			name = []string{"process crash", "machine crash that lost what was not synced", "machine crash that lost some of what was not synced", "machine crash that tore what was not synced"}[v]
			no++
			d := filepath.Join(dir, fmt.Sprint("s", no))
			writeFiles(d, fs)
			got := w.recovered(name+" after "+what, d, lo, hi, r.P(0.2))
			removeDir(d)
			w.use()
			states++
			k.Eval("trace v%d lo%d hi%d got%d %d", v, lo, hi, got, no)
			k.Count(name, 1)
		}
	}
	for _, line := range lines {
		sp := strings.IndexByte(line, ' ')
		if sp < 0 {
			continue
		}
		pid, call := line[:sp], strings.TrimLeft(line[sp:], " ")
		if strings.HasSuffix(call, "<unfinished ...>") {
			pendingCall[pid] = strings.TrimSuffix(call, "<unfinished ...>")
			continue
		}
		if mm := reResumed.FindStringSubmatch(call); mm != nil {
			call = strings.TrimRight(pendingCall[pid], " ") + mm[1]
			delete(pendingCall, pid)
		}
		mm := reCall.FindStringSubmatch(call)
		if mm == nil {
			continue
		}
		name, args, ret := mm[1], mm[2], mm[3]
		if strings.HasPrefix(ret, "-") {
			continue
		}
		events++
		fdPath := func() string {
			if x := reFd.FindStringSubmatch(args); x != nil {
				return unhex(x[1])
			}
			return ""
		}
		inDB := func(p string) (string, bool) {
			if filepath.Dir(p) != live {
				return "", false
			}
			b := filepath.Base(p)
			return b, b != "LOG" && b != "LOG.old" && b != "LOCK"
		}
		strs := reStr.FindAllStringSubmatch(args, -1)
		changed, torn := "", false
		switch name {
		case "openat", "open", "creat":
			if len(strs) == 0 {
				continue
			}
			if b, ok := inDB(unhex(strs[0][1])); ok {
				if strings.Contains(args, "O_CREAT") || name == "creat" {
					if files[b] == nil || strings.Contains(args, "O_TRUNC") {
						files[b] = &simFile{}
						changed = "creation of " + b
					}
				}
				pos[b] = 0
				if strings.Contains(args, "O_APPEND") && files[b] != nil {
					pos[b] = len(files[b].data)
				}
			}
		case "write":
			p := fdPath()
			if len(strs) == 0 {
				continue
			}
			n, _ := strconv.Atoi(strings.Fields(ret)[0])
			data := []byte(unhex(strs[0][1]))
			if n < len(data) {
				data = data[:n]
			}
			if s := string(data); strings.HasPrefix(args, "1<") {
				var x uint64
				if s == "@open\n" {
					opened = true
				} else if _, err := fmt.Sscanf(s, "@begin %d", &x); err == nil {
					hi = x + 1
				} else if _, err := fmt.Sscanf(s, "@end %d", &x); err == nil {
					lo, hi = x, x
				}
				if strings.HasPrefix(s, "@end") {
					changed, torn = "the end of a mutation", true
				}
				break
			}
			b, ok := inDB(p)
			if !ok || files[b] == nil {
				continue
			}
			f := files[b]
			if len(f.data) < pos[b]+len(data) {
				f.data = append(f.data, make([]byte, pos[b]+len(data)-len(f.data))...)
			}
			f.data = bytes.Clone(f.data)
			copy(f.data[pos[b]:], data)
			f.synced = min(f.synced, pos[b])
			pos[b] += len(data)
			changed, torn = fmt.Sprintf("a write of %d bytes to %s", len(data), b), true
		case "fsync", "fdatasync":
			if b, ok := inDB(fdPath()); ok && files[b] != nil {
				files[b].synced = len(files[b].data)
				k.Count("syncs seen", 1)
			}
		case "rename", "renameat", "renameat2":
			if len(strs) < 2 {
				continue
			}
			b0, _ := inDB(unhex(strs[0][1]))
			b1, ok := inDB(unhex(strs[1][1]))
			if ok && files[b0] != nil {
				files[b1] = files[b0]
				delete(files, b0)
				changed = "renaming " + b0
			}
		case "unlink", "unlinkat":
			if len(strs) == 0 {
				continue
			}
			if b, ok := inDB(unhex(strs[0][1])); ok {
				delete(files, b)
				changed = "removal of " + b
			}
		case "lseek":
			if b, ok := inDB(fdPath()); ok && files[b] != nil {
				x, _ := strconv.Atoi(strings.Fields(ret)[0])
				pos[b] = x
			}
		default:
			if b, ok := inDB(fdPath()); ok {
				panic("harness: unexpected system call " + name + " on " + b)
			}
		}
		if changed == "" {
			continue
		}
		writes++
		if writes%stride == 0 || strings.HasPrefix(changed, "the end") || len(changed) < 40 && r.P(0.3) {
			check2(changed, torn)
		}
	}
	// The simulation has to have arrived at the files that are really there.
	for f, raw := range dirFiles(live) {
		if f == "LOG" || f == "LOG.old" || f == "LOCK" {
			continue
		}
		if files[f] == nil || !bytes.Equal(files[f].data, raw) {
			panic("harness: trace does not explain the content of " + f)
		}
	}
	k.Count("system calls", events)
	if k.Idx < 2 {
		k.Sample("%v: %d mutations, %d system calls, %d states after crashes", w.cfg, len(w.hist), events, states)
	}
}

var (
	reResumed = regexp.MustCompile(`^<\.\.\. \w+ resumed>(.*)$`)
	reCall    = regexp.MustCompile(`^(\w+)\((.*)\)\s+= (.+)$`)
	reFd      = regexp.MustCompile(`^\d+<([^>]*)>`)
	reStr     = regexp.MustCompile(`"([^"]*)"`)
)

// unhex decodes strace's \x notation.
func unhex(s string) string {
	if !strings.HasPrefix(s, `\x`) {
		return s
	}
	out := make([]byte, 0, len(s)/4)
	for i := 0; i+3 < len(s); i += 4 {
		out = append(out, unnib(s[i+2])<<4|unnib(s[i+3]))
	}
	return string(out)
}

func unnib(c byte) byte {
	if c <= '9' {
		return c - '0'
	}
	return c - 'a' + 10
}
