package main

import (
	"bytes"
	"fmt"
	"sort"
	"unicode/utf16"

	"github.com/tc-hib/winres"
)

// Ident is a resource or type identifier: a name if N is not empty, else a number.
type Ident struct {
	N string `json:"n,omitempty"`
	I uint16 `json:"i,omitempty"`
	E bool   `json:"e,omitempty"` // the (invalid) empty name
	X uint8  `json:"x,omitempty"` // a byte which makes the name invalid UTF-8, at its end
}

func (i Ident) W() winres.Identifier {
	if i.X != 0 {
		return winres.Name(i.N + string([]byte{i.X}))
	}
	if i.N != "" || i.E {
		return winres.Name(i.N)
	}
	return winres.ID(i.I)
}

func (i Ident) String() string {
	if i.X != 0 {
		return fmt.Sprintf("%q\\x%02x", i.N, i.X)
	}
	if i.N != "" || i.E {
		if len(i.N) > 40 {
			return fmt.Sprintf("%q..(%d)", i.N[:40], len(i.N))
		}
		return fmt.Sprintf("%q", i.N)
	}
	return fmt.Sprintf("#%d", i.I)
}

func (i Ident) isName() bool { return i.N != "" || i.E || i.X != 0 }

func (i Ident) valid() bool {
	if i.isName() {
		if i.N == "" || i.X != 0 {
			return false
		}
		for k := 0; k < len(i.N); k++ {
			if i.N[k] == 0 {
				return false
			}
		}
		return true
	}
	return i.I != 0
}

func fromW(id winres.Identifier) Ident {
	switch v := id.(type) {
	case winres.ID:
		return Ident{I: uint16(v)}
	case winres.Name:
		return Ident{N: string(v), E: v == ""}
	}
	return Ident{}
}

// less is the order of a resource directory: names first, then numbers.
func (i Ident) less(j Ident) bool {
	if i.isName() != j.isName() {
		return i.isName()
	}
	if i.isName() {
		return lessName(i.N, j.N)
	}
	return i.I < j.I
}

// lessName compares the way Windows does when it looks for a name.
func lessName(a, b string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < 0xEE && b[i] < 0xEE {
				return a[i] < b[i] // nothing above U+DFFF
			}
			x, y := utf16.Encode([]rune(a)), utf16.Encode([]rune(b))
			for k := 0; k < len(x) && k < len(y); k++ {
				if x[k] != y[k] {
					return x[k] < y[k]
				}
			}
			return len(x) < len(y)
		}
	}
	return len(a) < len(b)
}

func nid(i int) Ident      { return Ident{I: uint16(i)} }
func nname(s string) Ident { return Ident{N: s} }

const (
	rtCursor      = 1
	rtIcon        = 3
	rtRCData      = 10
	rtGroupCursor = 12
	rtGroupIcon   = 14
	rtVersion     = 16
	rtManifest    = 24
)

type Key struct {
	T, R Ident
	L    uint16
}

func (k Key) String() string { return fmt.Sprintf("%v/%v/%d", k.T, k.R, k.L) }

func (k Key) less(j Key) bool {
	if k.T != j.T {
		return k.T.less(j.T)
	}
	if k.R != j.R {
		return k.R.less(j.R)
	}
	return k.L < j.L
}

// MSet is the reference model of a resource set: a map.
type MSet struct{ m map[Key][]byte }

func newMSet() *MSet { return &MSet{m: map[Key][]byte{}} }

func (s *MSet) keys() []Key {
	ks := make([]Key, 0, len(s.m))
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].less(ks[j]) })
	return ks
}

func (s *MSet) clone() *MSet {
	c := newMSet()
	for k, v := range s.m {
		c.m[k] = v
	}
	return c
}

// deep copies the data too.
func (s *MSet) deep() *MSet {
	c := newMSet()
	for k, v := range s.m {
		c.m[k] = append([]byte{}, v...)
	}
	return c
}

func (s *MSet) filter(t Ident) *MSet {
	c := newMSet()
	for k, v := range s.m {
		if k.T == t || (t == nid(rtGroupIcon) && k.T == nid(rtIcon)) || (t == nid(rtGroupCursor) && k.T == nid(rtCursor)) {
			c.m[k] = v
		}
	}
	return c
}

func (s *MSet) firstLang(t, r Ident) (uint16, bool) {
	best, ok := 0, false
	for k := range s.m {
		if k.T == t && k.R == r && (!ok || int(k.L) < best) {
			best, ok = int(k.L), true
		}
	}
	return uint16(best), ok
}

func (s *MSet) size() int {
	n := 0
	for _, v := range s.m {
		n += len(v)
	}
	return n
}

// diff describes the first difference between two models, or "".
func (s *MSet) diff(o *MSet, me, other string) string {
	for _, k := range s.keys() {
		v, ok := o.m[k]
		if !ok {
			return fmt.Sprintf("%v is in %s, not in %s", k, me, other)
		}
		if !bytes.Equal(v, s.m[k]) {
			return fmt.Sprintf("%v differs: %s has %s, %s has %s", k, me, brief(s.m[k]), other, brief(v))
		}
	}
	for _, k := range o.keys() {
		if _, ok := s.m[k]; !ok {
			return fmt.Sprintf("%v is in %s, not in %s", k, other, me)
		}
	}
	return ""
}

func (s *MSet) hash() uint64 {
	h := uint64(1)
	for _, k := range s.keys() {
		h = mix(h ^ hashStr(k.String()) ^ mix(hashBytes(s.m[k])))
	}
	return h
}

func brief(b []byte) string {
	if len(b) <= 12 {
		return fmt.Sprintf("[%d]%x", len(b), b)
	}
	return fmt.Sprintf("[%d]%x..%x(h%04x)", len(b), b[:6], b[len(b)-3:], hashBytes(b)&0xFFFF)
}

// realSet walks a real set into a model, checking the order on the way.
func realSet(rs *winres.ResourceSet) (*MSet, string) {
	m := newMSet()
	var prev *Key
	bad := ""
	rs.Walk(func(t, r winres.Identifier, l uint16, data []byte) bool {
		k := Key{fromW(t), fromW(r), l}
		if prev != nil && !prev.less(k) && bad == "" {
			bad = fmt.Sprintf("walk shows %v after %v", k, *prev)
		}
		if _, dup := m.m[k]; dup && bad == "" {
			bad = fmt.Sprintf("walk shows %v twice", k)
		}
		prev = &k
		m.m[k] = data
		return true
	})
	return m, bad
}

// compareSet checks every query of a real set against the model.
func compareSet(rs *winres.ResourceSet, m *MSet, r *Rng) string {
	if r.P(50) {
		if n := rs.Count(); n != len(m.m) {
			return fmt.Sprintf("count is %d, expected %d", n, len(m.m))
		}
	}
	got, bad := realSet(rs)
	if bad != "" {
		return bad
	}
	if d := m.diff(got, "model", "set"); d != "" {
		return d
	}
	if n := rs.Count(); n != len(m.m) {
		return fmt.Sprintf("count is %d, expected %d", n, len(m.m))
	}
	keys := m.keys()
	for i, k := range keys {
		if i < 64 || r.P(10) {
			if d := rs.Get(k.T.W(), k.R.W(), k.L); !bytes.Equal(d, m.m[k]) || d == nil {
				return fmt.Sprintf("get %v returned %s, expected %s", k, brief(d), brief(m.m[k]))
			}
			for _, k2 := range []Key{{k.T, k.R, k.L + 1}, {k.T, Ident{I: k.R.I + 1}, k.L}, {Ident{I: k.T.I + 1}, k.R, k.L}} {
				if _, ok := m.m[k2]; !ok {
					if d := rs.Get(k2.T.W(), k2.R.W(), k2.L); d != nil {
						return fmt.Sprintf("get of absent %v returned %s", k2, brief(d))
					}
				}
			}
		}
	}
	for i := 0; i < len(keys); {
		j := i
		for j < len(keys) && keys[j].T == keys[i].T {
			j++
		}
		if s := compareTypeKeys(rs, m, keys[i].T, keys[i:j]); s != "" {
			return s
		}
		i = j
	}
	return compareType(rs, m, Ident{N: "NoSuchType"})
}

func compareType(rs *winres.ResourceSet, m *MSet, t Ident) string {
	var want []Key
	for _, k := range m.keys() {
		if k.T == t {
			want = append(want, k)
		}
	}
	return compareTypeKeys(rs, m, t, want)
}

func compareTypeKeys(rs *winres.ResourceSet, m *MSet, t Ident, want []Key) string {
	i, bad := 0, ""
	rs.WalkType(t.W(), func(r winres.Identifier, l uint16, data []byte) bool {
		k := Key{t, fromW(r), l}
		if i >= len(want) {
			bad = fmt.Sprintf("walk of type %v shows %v beyond its end", t, k)
		} else if want[i] != k {
			bad = fmt.Sprintf("walk of type %v shows %v, expected %v", t, k, want[i])
		} else if !bytes.Equal(data, m.m[k]) {
			bad = fmt.Sprintf("walk of type %v shows other data for %v", t, k)
		}
		i++
		return bad == ""
	})
	if bad == "" && i != len(want) {
		bad = fmt.Sprintf("walk of type %v shows %d resources, expected %d", t, i, len(want))
	}
	return bad
}

// build makes a new real set with the model's content, inserted in the order given by r.
func (s *MSet) build(r *Rng) (*winres.ResourceSet, error) {
	rs := &winres.ResourceSet{}
	ks := s.keys()
	if r != nil {
		for i := len(ks) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		d := append(make([]byte, 0, len(s.m[k])), s.m[k]...)
		if err := rs.Set(k.T.W(), k.R.W(), k.L, d); err != nil {
			return nil, fmt.Errorf("%v: %v", k, err)
		}
	}
	return rs, nil
}

func utf16len(s string) int { return len(utf16.Encode([]rune(s))) }
