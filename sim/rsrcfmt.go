package main

// An independent writer and reader of the PE resource section.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"unicode/utf16"
)

// DataSpec describes bytes: N pseudo-random bytes made from S, or B.
type DataSpec struct {
	N   int    `json:"n,omitempty"`
	S   uint64 `json:"s,omitempty"`
	B   []byte `json:"b,omitempty"`
	Nil bool   `json:"nil,omitempty"`
	X   int    `json:"x,omitempty"` // one byte differs: nearly the same as another one
	E   uint64 `json:"e,omitempty"` // when not 0, it is an executable
}

// differ changes one byte; where depends on x.
func differ(b []byte, x, from int) []byte {
	if x == 0 || len(b) <= from {
		return b
	}
	p := len(b) - 1
	if x%3 != 0 {
		p = from + x/3%(len(b)-from)
	}
	b[p] ^= byte(1 + x%255)
	return b
}

func (d DataSpec) Bytes() []byte {
	if d.Nil {
		return nil
	}
	if d.B != nil {
		return append([]byte{}, d.B...)
	}
	if d.E != 0 {
		return differ(tinyExe(d.E), d.X, 0)
	}
	if d.S%11 == 10 {
		return differ(make([]byte, d.N), d.X, 0)
	}
	return differ(fillBytes(d.N, d.S), d.X, 0)
}

type ResItem struct {
	T Ident    `json:"t"`
	R Ident    `json:"r"`
	L uint16   `json:"l,omitempty"`
	D DataSpec `json:"d"`
}

// RsrcLayout selects among the layouts other linkers and editors produce.
type RsrcLayout struct {
	Depth   bool   `json:"depth,omitempty"` // depth-first directory tables
	Order   int    `json:"order,omitempty"` // order of data entries, strings and data
	Pad     int    `json:"pad,omitempty"`   // alignment of data
	RevData bool   `json:"rev,omitempty"`   // data in reverse order
	Dup     bool   `json:"dup,omitempty"`   // one copy of a name per use
	Junk    uint32 `json:"junk,omitempty"`  // time stamps, versions, code pages
	Lead    int    `json:"lead,omitempty"`  // unrelated bytes before the data
	Trail   int    `json:"trail,omitempty"` // unrelated bytes after the data
	Share   bool   `json:"share,omitempty"` // equal data stored once
	Shuf    uint64 `json:"shuf,omitempty"`  // when not 0, directories are not sorted
}

var le = binary.LittleEndian

func alignTo(v, a int) int { return (v + a - 1) / a * a }

func itemsToSet(items []ResItem) *MSet {
	m := newMSet()
	for _, it := range items {
		d := it.D.Bytes()
		if d == nil || !it.T.valid() || !it.R.valid() {
			continue
		}
		m.m[Key{it.T, it.R, it.L}] = d
	}
	return m
}

// buildRsrc lays out a resource section loaded at base.
func buildRsrc(m *MSet, lay RsrcLayout, base uint32) []byte {
	type lang struct {
		l    uint16
		data []byte
		ent  int // offset of the data entry
		off  int
	}
	type res struct {
		id    Ident
		langs []*lang
		tab   int
	}
	type typ struct {
		id  Ident
		res []*res
		tab int
	}
	var types []*typ
	for _, k := range m.keys() {
		if len(types) == 0 || types[len(types)-1].id != k.T {
			types = append(types, &typ{id: k.T})
		}
		t := types[len(types)-1]
		if len(t.res) == 0 || t.res[len(t.res)-1].id != k.R {
			t.res = append(t.res, &res{id: k.R})
		}
		r := t.res[len(t.res)-1]
		r.langs = append(r.langs, &lang{l: k.L, data: m.m[k]})
	}
	if lay.Shuf != 0 {
		// names stay before numbers
		r := newRng(lay.Shuf, 6)
		shuffle := func(n, names int, swap func(i, j int)) {
			for i := 0; i < n; i++ {
				lo := 0
				if i >= names {
					lo = names
				}
				swap(i, lo+r.N(i-lo+1))
			}
		}
		nt := 0
		for _, t := range types {
			if t.id.isName() {
				nt++
			}
			nr := 0
			for _, x := range t.res {
				if x.id.isName() {
					nr++
				}
				shuffle(len(x.langs), 0, func(i, j int) { x.langs[i], x.langs[j] = x.langs[j], x.langs[i] })
			}
			shuffle(len(t.res), nr, func(i, j int) { t.res[i], t.res[j] = t.res[j], t.res[i] })
		}
		shuffle(len(types), nt, func(i, j int) { types[i], types[j] = types[j], types[i] })
	}
	pos := 16 + 8*len(types)
	if lay.Depth {
		for _, t := range types {
			t.tab = pos
			pos += 16 + 8*len(t.res)
			for _, r := range t.res {
				r.tab = pos
				pos += 16 + 8*len(r.langs)
			}
		}
	} else {
		for _, t := range types {
			t.tab = pos
			pos += 16 + 8*len(t.res)
		}
		for _, t := range types {
			for _, r := range t.res {
				r.tab = pos
				pos += 16 + 8*len(r.langs)
			}
		}
	}
	var all []*lang
	for _, t := range types {
		for _, r := range t.res {
			all = append(all, r.langs...)
		}
	}
	nameOff := map[string]int{}
	type placed struct {
		n   string
		off int
	}
	var names []placed
	dupOff := map[interface{}]int{}
	layEntries := func() {
		pos = alignTo(pos, 4)
		for _, l := range all {
			l.ent = pos
			pos += 16
		}
	}
	layNames := func() {
		pos = alignTo(pos, 2)
		put := func(key interface{}, n string) {
			if !lay.Dup {
				if o, ok := nameOff[n]; ok {
					dupOff[key] = o
					return
				}
			}
			nameOff[n] = pos
			dupOff[key] = pos
			names = append(names, placed{n, pos})
			pos += 2 + 2*utf16len(n)
		}
		for _, t := range types {
			if t.id.isName() {
				put(t, t.id.N)
			}
			for _, r := range t.res {
				if r.id.isName() {
					put(r, r.id.N)
				}
			}
		}
	}
	pad := lay.Pad
	if pad < 1 {
		pad = 4
	}
	layData := func() {
		pos += lay.Lead
		order := append([]*lang{}, all...)
		if lay.RevData {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
		shared := map[string]int{}
		for _, l := range order {
			pos = alignTo(pos, pad)
			if lay.Share && len(l.data) > 0 {
				if o, ok := shared[string(l.data)]; ok {
					l.off = o
					continue
				}
			}
			l.off = pos
			if lay.Share {
				shared[string(l.data)] = pos
			}
			pos += len(l.data)
		}
	}
	switch lay.Order % 3 {
	case 0:
		layEntries()
		layNames()
		layData()
	case 1:
		layNames()
		layEntries()
		layData()
	default:
		layEntries()
		layData()
		layNames()
	}
	pos += lay.Trail
	b := make([]byte, pos)
	for i := range b {
		if lay.Lead+lay.Trail > 0 {
			b[i] = 0xCC
		}
	}
	table := func(off, nn, ni int) {
		le.PutUint32(b[off:], 0)
		le.PutUint32(b[off+4:], lay.Junk)
		le.PutUint16(b[off+8:], uint16(lay.Junk>>8))
		le.PutUint16(b[off+10:], uint16(lay.Junk>>16))
		le.PutUint16(b[off+12:], uint16(nn))
		le.PutUint16(b[off+14:], uint16(ni))
	}
	ident := func(off int, id Ident, key interface{}) {
		if id.isName() {
			le.PutUint32(b[off:], uint32(dupOff[key])|0x80000000)
		} else {
			le.PutUint32(b[off:], uint32(id.I))
		}
	}
	nn := 0
	for _, t := range types {
		if t.id.isName() {
			nn++
		}
	}
	table(0, nn, len(types)-nn)
	for i, t := range types {
		ident(16+8*i, t.id, t)
		le.PutUint32(b[16+8*i+4:], uint32(t.tab)|0x80000000)
		nn := 0
		for _, r := range t.res {
			if r.id.isName() {
				nn++
			}
		}
		table(t.tab, nn, len(t.res)-nn)
		for j, r := range t.res {
			ident(t.tab+16+8*j, r.id, r)
			le.PutUint32(b[t.tab+16+8*j+4:], uint32(r.tab)|0x80000000)
			table(r.tab, 0, len(r.langs))
			for k, l := range r.langs {
				le.PutUint32(b[r.tab+16+8*k:], uint32(l.l))
				le.PutUint32(b[r.tab+16+8*k+4:], uint32(l.ent))
				le.PutUint32(b[l.ent:], base+uint32(l.off))
				le.PutUint32(b[l.ent+4:], uint32(len(l.data)))
				le.PutUint32(b[l.ent+8:], lay.Junk)
				le.PutUint32(b[l.ent+12:], 0)
				copy(b[l.off:], l.data)
			}
		}
	}
	for _, p := range names {
		u := utf16.Encode([]rune(p.n))
		le.PutUint16(b[p.off:], uint16(len(u)))
		for i, c := range u {
			le.PutUint16(b[p.off+2+2*i:], c)
		}
	}
	return b
}

type parsedRsrc struct {
	set      *MSet
	entries  []int // offsets of the data entries
	tables   [][2]int
	dataOffs map[Key][2]int // offset and size of data
	names    [][2]int
}

// parseRsrc reads a resource section strictly: sorted and properly nested
// tables, valid identifiers, everything inside the section.
func parseRsrc(b []byte, base uint32) (*parsedRsrc, error) {
	p := &parsedRsrc{set: newMSet(), dataOffs: map[Key][2]int{}}
	type ent struct {
		id  Ident
		off int
		sub bool
	}
	budget := 2000000
	table := func(off int, leaf bool) ([]ent, error) {
		if off+16 > len(b) || off < 0 {
			return nil, fmt.Errorf("directory table at %#x is out of the section", off)
		}
		nn, ni := int(le.Uint16(b[off+12:])), int(le.Uint16(b[off+14:]))
		if off+16+8*(nn+ni) > len(b) {
			return nil, fmt.Errorf("directory table at %#x with %d entries is out of the section", off, nn+ni)
		}
		budget -= nn + ni + 1
		if budget < 0 {
			return nil, errors.New("too many directory entries")
		}
		p.tables = append(p.tables, [2]int{off, 16 + 8*(nn+ni)})
		var es []ent
		for i := 0; i < nn+ni; i++ {
			id, o := le.Uint32(b[off+16+8*i:]), le.Uint32(b[off+16+8*i+4:])
			e := ent{off: int(o &^ 0x80000000), sub: o&0x80000000 != 0}
			if (id&0x80000000 != 0) != (i < nn) {
				return nil, fmt.Errorf("entry %d of table %#x: names must come first and be counted as such", i, off)
			}
			if i < nn {
				no := int(id &^ 0x80000000)
				if no+2 > len(b) {
					return nil, fmt.Errorf("name at %#x is out of the section", no)
				}
				l := int(le.Uint16(b[no:]))
				if no+2+2*l > len(b) {
					return nil, fmt.Errorf("name at %#x is out of the section", no)
				}
				u := make([]uint16, l)
				for k := range u {
					u[k] = le.Uint16(b[no+2+2*k:])
				}
				e.id = Ident{N: string(utf16.Decode(u))}
				p.names = append(p.names, [2]int{no, 2 + 2*l})
				if leaf {
					return nil, fmt.Errorf("language %q is a name", e.id.N)
				}
				if !e.id.valid() || l == 0 {
					return nil, fmt.Errorf("invalid name %q", e.id.N)
				}
			} else {
				if id > 0xFFFF {
					return nil, fmt.Errorf("identifier %#x is too big", id)
				}
				e.id = Ident{I: uint16(id)}
				if !leaf && id == 0 {
					return nil, fmt.Errorf("identifier 0 in table %#x", off)
				}
			}
			if e.sub == leaf {
				return nil, fmt.Errorf("table %#x has a subdirectory at the wrong level", off)
			}
			if i > 0 && !es[i-1].id.less(e.id) {
				return nil, fmt.Errorf("table %#x is not sorted: %v then %v", off, es[i-1].id, e.id)
			}
			es = append(es, e)
		}
		return es, nil
	}
	types, err := table(0, false)
	if err != nil {
		return nil, err
	}
	for _, t := range types {
		rs, err := table(t.off, false)
		if err != nil {
			return nil, err
		}
		for _, r := range rs {
			ls, err := table(r.off, true)
			if err != nil {
				return nil, err
			}
			for _, l := range ls {
				if l.off+16 > len(b) {
					return nil, fmt.Errorf("data entry at %#x is out of the section", l.off)
				}
				rva, sz := le.Uint32(b[l.off:]), le.Uint32(b[l.off+4:])
				o := int64(rva) - int64(base)
				if o < 0 || o+int64(sz) > int64(len(b)) {
					return nil, fmt.Errorf("data of %v/%v/%d at %#x (+%d) is out of the section", t.id, r.id, l.id.I, rva, sz)
				}
				k := Key{t.id, r.id, l.id.I}
				p.set.m[k] = b[o : o+int64(sz) : o+int64(sz)]
				p.entries = append(p.entries, l.off)
				p.dataOffs[k] = [2]int{int(o), int(sz)}
			}
		}
	}
	return p, nil
}

// overlaps checks that the parts of a section do not overlap (names may be shared).
func (p *parsedRsrc) overlaps() string {
	type span struct {
		a, b int
		what string
	}
	var sp []span
	for _, t := range p.tables {
		sp = append(sp, span{t[0], t[0] + t[1], "table"})
	}
	for _, e := range p.entries {
		sp = append(sp, span{e, e + 16, "data entry"})
	}
	seen := map[[2]int]bool{}
	for _, n := range p.names {
		if !seen[n] {
			seen[n] = true
			sp = append(sp, span{n[0], n[0] + n[1], "name"})
		}
	}
	for _, k := range p.set.keys() {
		if d := p.dataOffs[k]; d[1] > 0 {
			sp = append(sp, span{d[0], d[0] + d[1], "data of " + k.String()})
		}
	}
	sort.SliceStable(sp, func(i, j int) bool { return sp[i].a < sp[j].a })
	for i := 1; i < len(sp); i++ {
		if sp[i].a < sp[i-1].b {
			return fmt.Sprintf("%s at %#x overlaps %s at %#x", sp[i].what, sp[i].a, sp[i-1].what, sp[i-1].a)
		}
	}
	return ""
}
