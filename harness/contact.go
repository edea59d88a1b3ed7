package main

import (
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

// duty is a version of a label that a client has seen and has to monitor: it
// was first in the log at pos.
type duty struct {
	pos uint64
	ver uint32
}

// duties are what a client has to monitor, by label.
// It goes with the log entry up to which it has been monitored.
type duties map[string]map[duty]uint64

func (d duties) clone() duties {
	out := make(duties)
	for l, m := range d {
		out[l] = make(map[duty]uint64)
		for x, y := range m {
			out[l][x] = y
		}
	}
	return out
}

// learnt is called when a client has seen a version of a label. dle is the
// rightmost distinguished log entry at that time, or -1. n is the size of the
// tree if the client has searched for it, in which case it has seen everything
// on its right path, or zero.
func (d duties) learnt(label []byte, pos uint64, ver uint32, dle int64, n uint64) bool {
	if int64(pos) <= dle {
		return false
	}
	if d[string(label)] == nil {
		d[string(label)] = make(map[duty]uint64)
	}
	x := duty{pos, ver}
	d[string(label)][x] = max(d[string(label)][x], reachedFrom(pos, n))
	return true
}

// reachedFrom is the last log entry on the right path of x in a tree of n
// entries, or x if n is zero.
func reachedFrom(x, n uint64) uint64 {
	if n > 0 {
		if path := bstRightAncestors(x, n); len(path) > 0 {
			return path[len(path)-1]
		}
	}
	return x
}

// monitored is called when a client has monitored a label in a tree of n
// entries.
func (d duties) monitored(label []byte, dle int64, n uint64) (done int) {
	for x, y := range d[string(label)] {
		d[string(label)][x] = max(y, reachedFrom(x.pos, n))
		if int64(x.pos) <= dle {
			delete(d[string(label)], x)
			done++
		}
	}
	if len(d[string(label)]) == 0 {
		delete(d, string(label))
	}
	return
}

// check compares what a client knows to have to monitor with its duties. It
// must hold for every duty an entry of that version or a greater one, at the log
// entry up to which the duty was monitored or one from which monitoring leads
// there, or of a greater version anywhere on the right path. first is the log entry where a
// version was created.
func (d duties) check(cl *Client, label []byte, first func(ver uint32) (uint64, bool)) {
	k, n := cl.w.k, cl.size()
	var have []structs.MonitorMapEntry
	if s := cl.Label(label); s != nil {
		have = s.Contact
	}
	want := d[string(label)]
	for i, e := range have {
		pos, ok := first(e.Version)
		k.Assert(ok && onRightPath(pos, e.Position, n), "client monitors version %d of %.20q from log entry %d on in a tree of size %d, but it exists from %d on", e.Version, label, e.Position, n, pos)
		if i > 0 {
			k.Assert(have[i-1].Position < e.Position && have[i-1].Version < e.Version, "monitoring map of %.20q is not ascending: %v", label, have)
		}
	}
	for x, y := range want {
		ok := false
		for _, e := range have {
			ok = ok || e.Version >= x.ver && onRightPath(e.Position, y, n) ||
				e.Version > x.ver && onRightPath(x.pos, e.Position, n)
		}
		k.Assert(ok, "client has stopped to monitor version %d of %.20q which was created in log entry %d, though no distinguished log entry covers it: was monitored up to %d: monitors %v in a tree of size %d", x.ver, label, x.pos, y, have, n)
	}
}

// stopped is called when a client has monitored a label in a tree whose
// rightmost distinguished log entry is dle.
func (d duties) stopped(cl *Client, label []byte, dle int64) {
	if s := cl.Label(label); s != nil {
		for _, e := range s.Contact {
			cl.w.k.Assert(int64(e.Position) > dle, "client still monitors version %d of %.20q at log entry %d after the distinguished log entry %d: %v", e.Version, label, e.Position, dle, s.Contact)
		}
	}
}

// onRightPath tells whether y is x or is on the direct path of x and to its
// right.
func onRightPath(x, y, n uint64) bool {
	if x == y {
		return true
	}
	for _, z := range bstRightAncestors(x, n) {
		if z == y {
			return true
		}
	}
	return false
}

func (d duties) String() string {
	out := ""
	for _, l := range sortedKeys(d) {
		out += fmt.Sprintf("%.10q:%v ", l, reflect.ValueOf(d[l]).MapKeys())
	}
	return out
}
