package main

// An independent builder and reader of VS_VERSIONINFO structures.

import (
	"errors"
	"fmt"
	"strconv"
	"time"
	"unicode/utf16"

	"github.com/tc-hib/winres/version"
)

type VerStr struct {
	L uint16 `json:"l"`
	K string `json:"k"`
	V string `json:"v"`
	R int    `json:"r,omitempty"` // the value is repeated R more times
}

type VerSpec struct {
	FV, PV [4]uint16
	Flags  int      `json:"flags,omitempty"`
	Type   int      `json:"type,omitempty"` // 0 app, 1 dll, 2 unknown
	TS     int64    `json:"ts,omitempty"`   // 100 ns units since 1970, 0 for none
	S      []VerStr `json:"s"`
}

func (s VerStr) val() string {
	v := s.V
	for i := 0; i < s.R; i++ {
		v += s.V
	}
	return v
}

// MVer is the model of version information.
type MVer struct {
	FV, PV [4]uint16
	Flags  int
	Type   int
	TS     int64
	T      map[uint16]map[string]string
}

func (s *VerSpec) model() *MVer {
	m := &MVer{FV: s.FV, PV: s.PV, Flags: s.Flags, Type: s.Type, TS: s.TS, T: map[uint16]map[string]string{}}
	for _, x := range s.S {
		if m.T[x.L] == nil {
			m.T[x.L] = map[string]string{}
		}
		m.T[x.L][x.K] = x.val()
	}
	return m
}

// real makes an Info from a model, strings being set in the order given by r.
func (m *MVer) real(r *Rng) *version.Info {
	vi := &version.Info{FileVersion: m.FV, ProductVersion: m.PV}
	setFixed(vi, m)
	if r != nil && r.P(30) {
		// the same instant
		vi.Timestamp = vi.Timestamp.In(time.FixedZone("here", r.Pick(-12*3600, 19800, 3600, 14*3600, -1)))
	}
	type kv struct {
		l    uint16
		k, v string
	}
	var l []kv
	for _, lang := range m.langs() {
		for _, k := range sortedKeys(m.T[lang]) {
			l = append(l, kv{lang, k, m.T[lang][k]})
		}
	}
	if r != nil {
		for i := len(l) - 1; i > 0; i-- {
			j := r.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	for _, x := range l {
		_ = vi.Set(x.l, x.k, x.v)
	}
	return vi
}

func setFixed(vi *version.Info, m *MVer) {
	vi.Flags.Debug = m.Flags&1 != 0
	vi.Flags.Prerelease = m.Flags&2 != 0
	vi.Flags.Patched = m.Flags&4 != 0
	vi.Flags.PrivateBuild = m.Flags&8 != 0
	vi.Flags.SpecialBuild = m.Flags&0x20 != 0
	switch m.Type {
	case 0:
		vi.Type = version.App
	case 1:
		vi.Type = version.DLL
	default:
		vi.Type = version.Unknown
	}
	if m.TS != 0 {
		vi.Timestamp = time.Unix(m.TS/1e7, m.TS%1e7*100).UTC()
	}
}

func verModel(vi *version.Info) *MVer {
	m := &MVer{FV: vi.FileVersion, PV: vi.ProductVersion, T: map[uint16]map[string]string{}}
	if vi.Flags.Debug {
		m.Flags |= 1
	}
	if vi.Flags.Prerelease {
		m.Flags |= 2
	}
	if vi.Flags.Patched {
		m.Flags |= 4
	}
	if vi.Flags.PrivateBuild {
		m.Flags |= 8
	}
	if vi.Flags.SpecialBuild {
		m.Flags |= 0x20
	}
	switch vi.Type {
	case version.App:
	case version.DLL:
		m.Type = 1
	default:
		m.Type = 2
	}
	if !vi.Timestamp.IsZero() {
		m.TS = vi.Timestamp.Unix()*1e7 + int64(vi.Timestamp.Nanosecond())/100
	}
	for l, st := range vi.Table() {
		mm := map[string]string{}
		if st != nil {
			for k, v := range *st {
				mm[k] = v
			}
		}
		m.T[l] = mm
	}
	return m
}

func (m *MVer) langs() []uint16 {
	var l []int
	for k := range m.T {
		l = append(l, int(k))
	}
	sortInts(l)
	out := make([]uint16, len(l))
	for i := range l {
		out[i] = uint16(l[i])
	}
	return out
}

func (m *MVer) fixedEq(o *MVer) bool {
	return m.FV == o.FV && m.PV == o.PV && m.Flags == o.Flags && m.Type == o.Type && m.TS == o.TS
}

func (m *MVer) diff(o *MVer, an, bn string) string {
	if !m.fixedEq(o) {
		return fmt.Sprintf("fixed part is %v %v %#x %d %d in %s, %v %v %#x %d %d in %s", m.FV, m.PV, m.Flags, m.Type, m.TS, an, o.FV, o.PV, o.Flags, o.Type, o.TS, bn)
	}
	for _, p := range []struct {
		a, b   *MVer
		an, bn string
	}{{m, o, an, bn}, {o, m, bn, an}} {
		for _, l := range p.a.langs() {
			if len(p.a.T[l]) == 0 {
				continue
			}
			for _, k := range sortedKeys(p.a.T[l]) {
				v := p.a.T[l][k]
				w, ok := p.b.T[l][k]
				if !ok {
					return fmt.Sprintf("string %04x/%q is in %s, not in %s", l, k, p.an, p.bn)
				}
				if v != w {
					return fmt.Sprintf("string %04x/%q is %.40q in %s, %.40q in %s", l, k, v, p.an, w, p.bn)
				}
			}
		}
	}
	return ""
}

// stored is what SetVersionInfo is documented to store per language: the
// language's own strings, completed by neutral, en-US, then the first other.
func (m *MVer) stored() map[uint16]*MVer {
	def := map[string]string{}
	order := append([]uint16{0, 0x409}, m.langs()...)
	for _, l := range order {
		for k, v := range m.T[l] {
			if _, ok := def[k]; !ok {
				def[k] = v
			}
		}
	}
	out := map[uint16]*MVer{}
	for _, l := range m.langs() {
		t := map[string]string{}
		for k, v := range def {
			t[k] = v
		}
		for k, v := range m.T[l] {
			t[k] = v
		}
		out[l] = &MVer{FV: m.FV, PV: m.PV, Flags: m.Flags, Type: m.Type, TS: m.TS, T: map[uint16]map[string]string{l: t}}
	}
	return out
}

func (m *MVer) completed() *MVer {
	c := &MVer{FV: m.FV, PV: m.PV, Flags: m.Flags, Type: m.Type, TS: m.TS, T: map[uint16]map[string]string{}}
	for l, x := range m.stored() {
		c.T[l] = x.T[l]
	}
	return c
}

type vnode struct {
	key   string
	typ   uint16
	vlen  int
	value []byte // value area, up to the children
	kids  []vnode
}

func parseVNode(b []byte, depth int) (vnode, int, error) {
	var n vnode
	if len(b) < 6 {
		return n, 0, errors.New("node header is cut")
	}
	l := int(le.Uint16(b))
	n.vlen, n.typ = int(le.Uint16(b[2:])), le.Uint16(b[4:])
	if l < 8 || l > len(b) {
		return n, 0, fmt.Errorf("node length %d of %d", l, len(b))
	}
	if n.typ > 1 {
		return n, 0, fmt.Errorf("node type %d", n.typ)
	}
	d := b[:l]
	p := 6
	var u []uint16
	for {
		if p+2 > l {
			return n, 0, errors.New("key is cut")
		}
		c := le.Uint16(d[p:])
		p += 2
		if c == 0 {
			break
		}
		u = append(u, c)
	}
	n.key = string(utf16.Decode(u))
	p = min(alignTo(p, 4), l)
	vb := n.vlen
	if n.typ == 1 {
		vb *= 2
	}
	if p+vb > l {
		return n, 0, fmt.Errorf("value of %q (%d bytes) is out of its node (%d bytes)", n.key, vb, l)
	}
	n.value = d[p : p+vb]
	p = alignTo(p+vb, 4)
	if depth >= 3 && p < l {
		return n, 0, fmt.Errorf("string %q has %d bytes after its value", n.key, l-p)
	}
	for p < l {
		k, sz, err := parseVNode(d[p:], depth+1)
		if err != nil {
			return n, 0, fmt.Errorf("in %q: %w", n.key, err)
		}
		n.kids = append(n.kids, k)
		p = alignTo(p+sz, 4)
	}
	return n, l, nil
}

// parseVersion reads a VS_VERSIONINFO strictly.
func parseVersion(b []byte) (*MVer, error) {
	root, n, err := parseVNode(b, 0)
	if err != nil {
		return nil, err
	}
	if n != len(b) {
		return nil, fmt.Errorf("%d bytes after the structure", len(b)-n)
	}
	if root.key != "VS_VERSION_INFO" || root.vlen != 52 || root.typ != 0 {
		return nil, fmt.Errorf("root node %q, %d bytes of type %d", root.key, root.vlen, root.typ)
	}
	f := root.value
	if le.Uint32(f) != 0xFEEF04BD || le.Uint32(f[4:]) != 0x10000 {
		return nil, errors.New("bad fixed file info")
	}
	m := &MVer{T: map[uint16]map[string]string{}}
	dw := func(i int) uint32 { return le.Uint32(f[4*i:]) }
	m.FV = [4]uint16{uint16(dw(2) >> 16), uint16(dw(2)), uint16(dw(3) >> 16), uint16(dw(3))}
	m.PV = [4]uint16{uint16(dw(4) >> 16), uint16(dw(4)), uint16(dw(5) >> 16), uint16(dw(5))}
	m.Flags = int(dw(7)) & 0x2F
	if dw(7)&^dw(6) != 0 {
		return nil, fmt.Errorf("flags %#x out of the mask %#x", dw(7), dw(6))
	}
	switch dw(9) {
	case 1:
	case 2:
		m.Type = 1
	default:
		m.Type = 2
	}
	if ts := uint64(dw(11))<<32 | uint64(dw(12)); ts != 0 {
		m.TS = int64(ts) - 116444736000000000
	}
	trans := map[uint32]bool{}
	for _, k := range root.kids {
		if k.vlen != 0 {
			return nil, fmt.Errorf("%q has a value", k.key)
		}
		switch k.key {
		case "StringFileInfo":
			for _, t := range k.kids {
				if len(t.key) != 8 || t.vlen != 0 {
					return nil, fmt.Errorf("string table %q", t.key)
				}
				v, err := strconv.ParseUint(t.key, 16, 32)
				if err != nil || v&0xFFFF != 1200 {
					return nil, fmt.Errorf("string table %q", t.key)
				}
				l := uint16(v >> 16)
				if m.T[l] != nil {
					return nil, fmt.Errorf("string table %q twice", t.key)
				}
				m.T[l] = map[string]string{}
				for _, s := range t.kids {
					if s.typ != 1 || s.vlen == 0 && len(s.value) != 0 {
						return nil, fmt.Errorf("string %q of type %d", s.key, s.typ)
					}
					u := make([]uint16, len(s.value)/2)
					for i := range u {
						u[i] = le.Uint16(s.value[2*i:])
					}
					if len(u) > 0 {
						if u[len(u)-1] != 0 {
							return nil, fmt.Errorf("string %q is not terminated", s.key)
						}
						u = u[:len(u)-1]
					}
					for _, c := range u {
						if c == 0 {
							return nil, fmt.Errorf("string %q contains NUL", s.key)
						}
					}
					if _, ok := m.T[l][s.key]; ok {
						return nil, fmt.Errorf("string %q twice", s.key)
					}
					m.T[l][s.key] = string(utf16.Decode(u))
				}
			}
		case "VarFileInfo":
			for _, t := range k.kids {
				if t.key == "Translation" {
					for i := 0; i+4 <= len(t.value); i += 4 {
						trans[le.Uint32(t.value[i:])] = true
					}
				}
			}
		default:
			return nil, fmt.Errorf("unknown node %q", k.key)
		}
	}
	for l := range m.T {
		if !trans[uint32(l)|1200<<16] {
			return nil, fmt.Errorf("language %04x is not listed as a translation", l)
		}
	}
	if len(trans) != len(m.T) {
		return nil, fmt.Errorf("%d translations listed for %d languages", len(trans), len(m.T))
	}
	return m, nil
}

// buildVersion writes a structure the way resource compilers do. With short,
// strings without value and padding are written as some tools do.
func buildVersion(m *MVer, short bool) []byte {
	var node func(key string, typ uint16, vlen int, body []byte) []byte
	node = func(key string, typ uint16, vlen int, body []byte) []byte {
		u := append(utf16.Encode([]rune(key)), 0)
		b := make([]byte, 6, 64)
		for _, c := range u {
			b = append(b, byte(c), byte(c>>8))
		}
		if len(body) > 0 || !short {
			for len(b)%4 != 0 {
				b = append(b, 0)
			}
		}
		b = append(b, body...)
		le.PutUint16(b, uint16(len(b)))
		le.PutUint16(b[2:], uint16(vlen))
		le.PutUint16(b[4:], typ)
		return b
	}
	join := func(a, b []byte) []byte {
		for len(a)%4 != 0 {
			a = append(a, 0)
		}
		return append(a, b...)
	}
	f := make([]byte, 52)
	dw := func(i int, v uint32) { le.PutUint32(f[4*i:], v) }
	dw(0, 0xFEEF04BD)
	dw(1, 0x10000)
	dw(2, uint32(m.FV[0])<<16|uint32(m.FV[1]))
	dw(3, uint32(m.FV[2])<<16|uint32(m.FV[3]))
	dw(4, uint32(m.PV[0])<<16|uint32(m.PV[1]))
	dw(5, uint32(m.PV[2])<<16|uint32(m.PV[3]))
	dw(6, 0x3F)
	dw(7, uint32(m.Flags))
	dw(8, 0x40004)
	dw(9, [3]uint32{1, 2, 0}[m.Type])
	if m.TS != 0 {
		ts := uint64(m.TS + 116444736000000000)
		dw(11, uint32(ts>>32))
		dw(12, uint32(ts))
	}
	var sfi, tr []byte
	for _, l := range m.langs() {
		var st []byte
		for _, k := range sortedKeys(m.T[l]) {
			v := m.T[l][k]
			if v == "" && short {
				st = join(st, node(k, 1, 0, nil))
				continue
			}
			u := append(utf16.Encode([]rune(v)), 0)
			body := make([]byte, 2*len(u))
			for i, c := range u {
				le.PutUint16(body[2*i:], c)
			}
			st = join(st, node(k, 1, len(u), body))
		}
		sfi = join(sfi, node(fmt.Sprintf("%04x04b0", l), 1, 0, st))
		tr = append(tr, byte(l), byte(l>>8), 0xB0, 0x04)
	}
	body := append([]byte{}, f...)
	if m.Flags&1 != 0 { // either order occurs
		body = join(body, node("VarFileInfo", 1, 0, node("Translation", 0, len(tr), tr)))
		body = join(body, node("StringFileInfo", 1, 0, sfi))
	} else {
		body = join(body, node("StringFileInfo", 1, 0, sfi))
		body = join(body, node("VarFileInfo", 1, 0, node("Translation", 0, len(tr), tr)))
	}
	return node("VS_VERSION_INFO", 0, 52, body)
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}
