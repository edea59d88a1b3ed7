package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// site is a place in a structure where something can be altered.
type site struct {
	v    reflect.Value
	path string
}

var proofType = reflect.TypeOf(prefix.PrefixProof{})

// sites lists every alterable place below v.
func sites(v reflect.Value, path string, out *[]site) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.CanSet() {
			*out = append(*out, site{v, path})
		}
		if !v.IsNil() {
			sites(v.Elem(), path, out)
		}
	case reflect.Struct:
		if v.Type() == proofType {
			*out = append(*out, site{v, path})
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				sites(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice:
		*out = append(*out, site{v, path})
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			sites(v.Index(i), path+"[]", out)
		}
	case reflect.Uint64, reflect.Uint32, reflect.Int, reflect.Uint16, reflect.Uint8:
		*out = append(*out, site{v, path})
	}
}

// Mutator alters structures. Pool holds other structures of the same type
// whose parts may be transplanted.
type Mutator struct {
	r    *Rand
	cs   suites.CipherSuite
	Pool []any
	Only func(path string) bool
}

// Mutate alters x, a pointer to a structure, in place, in one or a few places.
// It returns a description.
func (m *Mutator) Mutate(x any) string {
	n := 1
	if m.r.P(0.2) {
		n = m.r.Range(2, 4)
	}
	desc := ""
	for i := 0; i < n; i++ {
		var ss []site
		sites(reflect.ValueOf(x).Elem(), "", &ss)
		if m.Only != nil {
			var keep []site
			for _, s := range ss {
				if m.Only(s.path) {
					keep = append(keep, s)
				}
			}
			ss = keep
		}
		if len(ss) == 0 {
			return "nothing"
		}
		s := m.pickSite(ss)
		desc += s.path + ":" + m.apply(s) + " "
	}
	return desc
}

// pickSite gives every distinct path the same chance, whatever the number of
// elements.
func (m *Mutator) pickSite(ss []site) site {
	byPath := make(map[string][]site)
	var paths []string
	for _, s := range ss {
		if len(byPath[s.path]) == 0 {
			paths = append(paths, s.path)
		}
		byPath[s.path] = append(byPath[s.path], s)
	}
	c := byPath[paths[m.r.Intn(len(paths))]]
	return c[m.r.Intn(len(c))]
}

// fromPool returns a value found at the same path in another structure.
func (m *Mutator) fromPool(s site) (reflect.Value, bool) {
	if len(m.Pool) == 0 {
		return reflect.Value{}, false
	}
	var ss, match []site
	sites(reflect.ValueOf(m.Pool[m.r.Intn(len(m.Pool))]).Elem(), "", &ss)
	for _, o := range ss {
		if o.path == s.path && o.v.Type() == s.v.Type() {
			match = append(match, o)
		}
	}
	if len(match) == 0 {
		return reflect.Value{}, false
	}
	return match[m.r.Intn(len(match))].v, true
}

func (m *Mutator) apply(s site) string {
	r, v := m.r, s.v
	if r.P(0.2) {
		if o, ok := m.fromPool(s); ok {
			v.Set(deepCopy(o))
			return "transplant"
		}
	}
	switch v.Kind() {
	case reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		x := v.Uint()
		switch r.Intn(7) {
		case 0, 1:
			x++
		case 2, 3:
			x--
		case 4:
			x = 0
		case 5:
			x = ^uint64(0)
		case 6:
			x = r.Uint64() >> uint(r.Intn(64))
		}
		bits := uint(v.Type().Bits())
		v.SetUint(x << (64 - bits) >> (64 - bits))
		return fmt.Sprintf("=%d", v.Uint())
	case reflect.Int:
		v.SetInt(v.Int() + int64(pick(r, -1, 1, 2, -2, 100)))
		return fmt.Sprintf("=%d", v.Int())
	case reflect.Pointer:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
			return "set"
		}
		v.Set(reflect.Zero(v.Type()))
		return "nil"
	case reflect.Struct:
		return m.proof(v.Addr().Interface().(*prefix.PrefixProof))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			out, d := m.bytes(v.Bytes())
			v.SetBytes(out)
			return d
		}
		return m.slice(v)
	}
	return "nothing"
}

func (m *Mutator) bytes(b []byte) ([]byte, string) {
	r := m.r
	out := bytes.Clone(b)
	if out == nil {
		out = []byte{}
	}
	switch c := r.Intn(8); {
	case c < 4 && len(out) > 0:
		out[r.Intn(len(out))] ^= 1 << r.Intn(8)
		return out, "flip"
	case c == 4:
		return r.Bytes(len(out)), "random"
	case c == 5 && len(out) > 0:
		return out[:r.Intn(len(out))], "truncate"
	case c == 6:
		return append(out, r.Bytes(r.Range(1, 40))...), "extend"
	case c == 7:
		if b == nil {
			return r.Bytes(32), "set"
		}
		return nil, "nil"
	}
	return make([]byte, len(out)), "zero"
}

func (m *Mutator) slice(v reflect.Value) string {
	r := m.r
	n := v.Len()
	cp := reflect.MakeSlice(v.Type(), 0, n+1)
	switch c := r.Intn(6); {
	case c == 0 && n > 0:
		i := r.Intn(n)
		cp = reflect.AppendSlice(cp, v.Slice(0, i))
		cp = reflect.AppendSlice(cp, v.Slice(i+1, n))
		v.Set(cp)
		return fmt.Sprintf("drop %d of %d", i, n)
	case c == 1 && n > 0:
		i := r.Intn(n)
		cp = reflect.AppendSlice(cp, v.Slice(0, i+1))
		cp = reflect.Append(cp, deepCopy(v.Index(i)))
		cp = reflect.AppendSlice(cp, v.Slice(i+1, n))
		v.Set(cp)
		return fmt.Sprintf("dup %d of %d", i, n)
	case c == 2 && n > 1:
		i, j := r.Intn(n), r.Intn(n)
		cp = reflect.AppendSlice(cp, v)
		a, b := deepCopy(cp.Index(i)), deepCopy(cp.Index(j))
		cp.Index(i).Set(b)
		cp.Index(j).Set(a)
		v.Set(cp)
		return fmt.Sprintf("swap %d %d of %d", i, j, n)
	case c == 3 && n > 0:
		v.Set(v.Slice(0, r.Intn(n)))
		return "truncate"
	case c == 4:
		cp = reflect.AppendSlice(cp, v)
		e := reflect.New(v.Type().Elem()).Elem()
		if e.Kind() == reflect.Slice && e.Type().Elem().Kind() == reflect.Uint8 {
			e.SetBytes(r.Bytes(32))
		} else if e.Kind() == reflect.Uint64 || e.Kind() == reflect.Uint32 {
			e.SetUint(uint64(r.Intn(1000)))
		}
		i := r.Intn(n + 1)
		cp = reflect.Append(cp, e)
		for j := n; j > i; j-- {
			cp.Index(j).Set(cp.Index(j - 1))
		}
		cp.Index(i).Set(e)
		v.Set(cp)
		return fmt.Sprintf("insert at %d of %d", i, n)
	}
	if n == 0 {
		return "nothing"
	}
	v.Set(reflect.Zero(v.Type()))
	return "clear"
}

// deepCopy copies a value. Prefix proofs are copied through the wire format.
func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(deepCopy(v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

func clonePtr[T any](x *T) *T {
	v := deepCopy(reflect.ValueOf(x))
	return v.Interface().(*T)
}

// ---- prefix proofs at the level of the wire format ----

type wireResult struct {
	kind     byte // 1 inclusion, 2 non-inclusion leaf, 3 non-inclusion parent
	vrf, com []byte
	depth    byte
}

type wireProof struct {
	results  []wireResult
	elements [][]byte
}

func parseProof(p *prefix.PrefixProof) *wireProof {
	raw, err := structs.Marshal(p)
	if err != nil {
		return nil
	}
	var out wireProof
	n := int(raw[0])
	raw = raw[1:]
	for i := 0; i < n; i++ {
		r := wireResult{kind: raw[0]}
		raw = raw[1:]
		if r.kind == 2 {
			r.vrf, r.com, raw = raw[:32], raw[32:64], raw[64:]
		}
		r.depth, raw = raw[0], raw[1:]
		out.results = append(out.results, r)
	}
	m := int(raw[0])<<8 | int(raw[1])
	raw = raw[2:]
	for i := 0; i < m; i++ {
		out.elements = append(out.elements, raw[:32])
		raw = raw[32:]
	}
	return &out
}

func (p *wireProof) encode() []byte {
	out := []byte{byte(len(p.results))}
	for _, r := range p.results {
		out = append(out, r.kind)
		if r.kind == 2 {
			out = append(out, r.vrf...)
			out = append(out, r.com...)
		}
		out = append(out, r.depth)
	}
	out = append(out, byte(len(p.elements)>>8), byte(len(p.elements)))
	for _, e := range p.elements {
		out = append(out, e...)
	}
	return out
}

func (p *wireProof) decode(cs suites.CipherSuite) (*prefix.PrefixProof, error) {
	buf := bytes.NewBuffer(p.encode())
	out, err := prefix.NewPrefixProof(cs, buf)
	if err == nil && buf.Len() != 0 {
		err = errLeftover
	}
	return out, err
}

func (p *wireProof) clone() *wireProof {
	out := &wireProof{}
	for _, r := range p.results {
		r.vrf, r.com = bytes.Clone(r.vrf), bytes.Clone(r.com)
		out.results = append(out.results, r)
	}
	for _, e := range p.elements {
		out.elements = append(out.elements, bytes.Clone(e))
	}
	return out
}

// mutate alters a parsed proof.
func (p *wireProof) mutate(r *Rand) string {
	n, m := len(p.results), len(p.elements)
	switch c := r.Intn(12); {
	case c == 0 && n > 0:
		i := r.Intn(n)
		p.results[i].depth += byte(pick(r, 1, 255, 2, 254, 128, r.Intn(256)))
		return fmt.Sprintf("depth %d", i)
	case c == 1 && n > 0:
		i := r.Intn(n)
		p.results[i].kind = byte(r.Range(1, 3))
		if p.results[i].kind == 2 && p.results[i].vrf == nil {
			p.results[i].vrf, p.results[i].com = r.Bytes(32), r.Bytes(32)
		}
		return fmt.Sprintf("kind %d", i)
	case c == 2 && n > 0:
		i := r.Intn(n)
		if p.results[i].kind != 2 {
			p.results[i] = wireResult{2, r.Bytes(32), r.Bytes(32), p.results[i].depth}
			return fmt.Sprintf("to leaf %d", i)
		}
		b := pick(r, p.results[i].vrf, p.results[i].com)
		b[r.Intn(32)] ^= 1 << r.Intn(8)
		return fmt.Sprintf("leaf %d", i)
	case c == 3 && n > 1:
		i, j := r.Intn(n), r.Intn(n)
		p.results[i], p.results[j] = p.results[j], p.results[i]
		return fmt.Sprintf("swap results %d %d", i, j)
	case c == 4 && n > 0:
		i := r.Intn(n)
		p.results = append(p.results[:i:i], p.results[i+1:]...)
		return fmt.Sprintf("drop result %d", i)
	case c == 5 && n > 0 && n < 255:
		p.results = append(p.results, p.results[r.Intn(n)])
		return "dup result"
	case c == 6 && m > 0:
		i := r.Intn(m)
		p.elements[i][r.Intn(32)] ^= 1 << r.Intn(8)
		return fmt.Sprintf("flip element %d", i)
	case c == 7 && m > 0:
		i := r.Intn(m)
		p.elements = append(p.elements[:i:i], p.elements[i+1:]...)
		return fmt.Sprintf("drop element %d", i)
	case c == 8:
		e := make([]byte, 32)
		if r.P(0.5) {
			e = r.Bytes(32)
		}
		i := r.Intn(m + 1)
		p.elements = append(p.elements[:i:i], append([][]byte{e}, p.elements[i:]...)...)
		return fmt.Sprintf("insert element %d", i)
	case c == 9 && m > 1:
		i, j := r.Intn(m), r.Intn(m)
		p.elements[i], p.elements[j] = p.elements[j], p.elements[i]
		return fmt.Sprintf("swap elements %d %d", i, j)
	case c == 10 && m > 0:
		p.elements[r.Intn(m)] = make([]byte, 32)
		return "zero element"
	}
	if n > 0 {
		i := r.Intn(n)
		if r.P(0.5) {
			p.results[i].depth++
		} else {
			p.results[i].depth--
		}
		if r.P(0.5) && m > 0 {
			j := r.Intn(m)
			p.elements = append(p.elements[:j:j], p.elements[j+1:]...)
		}
		return fmt.Sprintf("shift %d", i)
	}
	return "nothing"
}

func (m *Mutator) proof(p *prefix.PrefixProof) string {
	wp := parseProof(p)
	if wp == nil {
		return "nothing"
	}
	for try := 0; try < 10; try++ {
		c := wp.clone()
		d := c.mutate(m.r)
		out, err := c.decode(m.cs)
		if err == nil {
			*p = *out
			return "proof " + d
		}
	}
	return "nothing"
}
