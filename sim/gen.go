package main

// Generators: from one seed, everything a run does.

import "fmt"

type G struct {
	r  *Rng
	p  *Plan
	ts []Ident // types in use
	rs []Ident // identifiers in use
	ls []uint16

	filled int // sets filled with many resources

	big int // what is much larger than usual in this run

	datas []DataSpec // made so far
	imgs  []ImgSpec
}

const (
	bigSecs  = 1 << iota // sections
	bigStub              // offset of the PE header
	bigDirs              // number of data directories
	bigData              // contents of resources
	bigSet               // number of resources, types or languages
	bigNames             // length of names
	bigImgs              // number of images
	bigVer               // version information
	bigCode              // sections and appended data
	bigKinds = 9
)

func (g *G) is(kind int) bool { return g.big&kind != 0 }

// scale makes something much larger than usual once in a while: counts and
// sizes beyond 8 or 16 bits are where truncations show.
func (g *G) scale(prop string) {
	r := newRng(g.p.Seed, 2)
	if prop == "C10" {
		if r.P(3) {
			g.big = r.Pick(bigSecs, bigDirs)
		}
		return
	}
	if r.P(7) {
		g.big = 1 << r.N(bigKinds)
		if r.P(20) {
			g.big |= 1 << r.N(bigKinds)
		}
	}
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return mix(seed*0x9e3779b97f4a7c15 ^ mix(hashStr(prop)+uint64(i)*0x632be59bd9b4e019))
}

// generate makes the i-th plan of a property.
func generate(prop string, seed uint64, i int) *Plan {
	rs := runSeed(seed, prop, i)
	r := newRng(rs, 1)
	g := &G{r: r, p: &Plan{Prop: prop, Seed: rs, Map: r.U64()}}
	g.scale(prop)
	g.pools()
	f := generators[prop]
	if f == nil {
		infra("no generator for property %q", prop)
	}
	f(g)
	return g.p
}

var nameParts = []string{"A", "B", "a", "ab", "AB", "ABC", "Z", "NAME", "name", "ICON", "\u00e9t\u00e9", "\u65e5\u672c", "x y", "_", "0", "10", "#1", "#3", "#65535", " A", "A ", "\u00df", "\u0130", "1", "Long name of a resource that goes on and on"}

func (g *G) ident() Ident {
	r := g.r
	if g.is(bigNames) && r.P(30) {
		return nname(longName(r.Pick(200, 255, 256, 257, 1000, 4095, 20000, 32767, 32768, 40000, 65535), r.N(4)))
	}
	if g.p.Seed%6 == 0 && r.P(30) {
		// characters which take two UTF-16 units and those which sort behind them
		return nname(r.PickS("\U0001F600", "\U0001F600", "\U00010000", "\uFF21", "\uE000", "A\uFFFD", "\U0010FFFF", "A") + nameParts[r.N(10)])
	}
	switch r.N(12) {
	case 0, 1, 2:
		return nname(nameParts[r.N(len(nameParts))])
	case 3:
		return nname(nameParts[r.N(len(nameParts))] + fmt.Sprint(r.N(4)))
	case 4:
		return nid(r.Pick(0xFFFF, 0xFFFE, 0x8000, 0x7FFF, 0x100, 0xFF, 255, 256, 257))
	case 5:
		return nid(1 + r.N(0xFFFF))
	case 6:
		return nname(nameParts[r.N(len(nameParts))] + "\u00ff")
	}
	return nid(1 + r.N(9))
}

func longName(n, kind int) string {
	unit := []string{"N", "ab", "\u65e5", "x"}[kind%4]
	b := make([]byte, 0, n*len(unit))
	for i := 0; i < n; i++ {
		b = append(b, unit...)
		if kind == 1 {
			i++
		}
	}
	if kind == 1 && n%2 == 1 {
		b = b[:n]
	}
	return string(b)
}

func (g *G) lang() uint16 {
	return uint16(g.r.Pick(0, 0, 0, 0x409, 0x409, 0x407, 0x40C, 0x809, 1, 0xFFFF, 0xFFFE, 0x7FFF, g.r.N(0x10000)))
}

func (g *G) pools() {
	r := g.r
	for i := r.Between(1, 4); i > 0; i-- {
		if r.P(55) {
			g.ts = append(g.ts, nid(r.Pick(3, 14, 1, 12, 10, 16, 24, 2, 5, 6, 23)))
		} else {
			g.ts = append(g.ts, g.ident())
		}
	}
	for i := r.Between(2, 6); i > 0; i-- {
		g.rs = append(g.rs, g.ident())
	}
	for i := r.Between(1, 4); i > 0; i-- {
		g.ls = append(g.ls, g.lang())
	}
}

func (g *G) typ() Ident {
	if g.r.P(8) {
		return g.ident()
	}
	return g.ts[g.r.N(len(g.ts))]
}

func (g *G) res() Ident {
	if g.r.P(10) {
		return g.ident()
	}
	return g.rs[g.r.N(len(g.rs))]
}

func (g *G) lng() uint16 {
	if g.r.P(10) {
		return g.lang()
	}
	return g.ls[g.r.N(len(g.ls))]
}

// data makes resource data; big allows large ones.
func (g *G) data(big bool) DataSpec {
	r := g.r
	if n := len(g.datas); n > 0 && r.P(10) {
		d := g.datas[n-1-r.N(min(n, 3))]
		switch r.N(4) {
		case 0: // the same
		case 1:
			d.N = max(0, d.N-1+2*r.N(2)) // same beginning
		default:
			d.X = 1 + r.N(1<<20)
		}
		return d
	}
	d := g.someData(big)
	g.datas = append(g.datas, d)
	return d
}

func (g *G) someData(big bool) DataSpec {
	r := g.r
	n := 0
	if g.is(bigData) && r.P(30) {
		return DataSpec{N: r.Pick(65535, 65536, 65537, 70000, 100000, 200000, 300000, r.N(400000)), S: r.U64() >> 40}
	}
	switch r.N(12) {
	case 0:
		n = 0
	case 1, 2:
		n = r.N(10)
	case 3, 4, 5, 6:
		n = r.N(100)
	case 7, 8:
		n = r.N(700)
	case 9:
		n = 508 + r.N(9)
	case 10:
		n = r.N(3000)
		if r.P(20) {
			return DataSpec{E: r.U64()>>40 | 1}
		}
	case 11:
		n = r.N(300)
		if big {
			n = r.Pick(4096, 5000, 9000, 20000, r.N(30000))
		}
	}
	return DataSpec{N: n, S: r.U64() >> 40}
}

func (g *G) items(n int) []ResItem {
	var l []ResItem
	for ; n > 0; n-- {
		l = append(l, ResItem{T: g.typ(), R: g.res(), L: g.lng(), D: g.data(false)})
	}
	return l
}

type exeOpt struct {
	signed  int  // percent
	small   bool // keep it small
	tight   int  // percent
	noRsrc  int  // percent without resources
	vers    bool
	plainly bool // nothing unusual
}

// exe makes an executable.
func (g *G) exe(o exeOpt) ExeSpec {
	r := g.r
	e := ExeSpec{Name: fmt.Sprintf("exe%d", len(g.p.Exes)), Bits: r.Pick(32, 64), DLL: r.P(30), Seed: r.U64() >> 34, NDirs: 16}
	switch r.N(5) {
	case 0:
		e.Stub = 0
	case 1:
		e.Stub = r.N(300)
	default:
		e.Stub = 0x40
	}
	switch r.N(10) {
	case 0:
		e.FA, e.SA = 0x1000, 0x1000
	case 1:
		e.FA, e.SA = 0x400, 0x2000
	case 2:
		e.FA = r.Pick(0x10, 0x20, 0x80, 0x200)
		e.SA = e.FA
	case 3:
		e.FA, e.SA = 0x200, 0x10000
	case 4:
		e.FA, e.SA = 0x200, 0x1000
		if r.P(50) {
			e.FA = r.Pick(0x2000, 0x4000, 0x8000)
			e.SA = e.FA << r.N(2)
		}
	default:
		e.FA, e.SA = 0x200, 0x1000
	}
	if o.small && e.FA > 0x200 && r.P(70) {
		e.FA = 0x200
	}
	if r.P(25) {
		e.NDirs = r.Between(6, 16)
	}
	if g.is(bigDirs) {
		e.NDirs = r.Pick(17, 18, 20, 24, 32, 100, 255, 256)
	}
	if g.is(bigStub) {
		e.Stub = r.Pick(0x800, 0x3000, 0xFF00, 0xFFC0, 0x10000, 0x10000+r.N(0x9000), 0x20004)
	}
	switch {
	case r.P(o.tight):
		e.Tight = 1 + r.Pick(0, 0, 4, 16, 32, 36, 40, 40, 44, 80)
	default:
		e.Room = r.Pick(40, 80, 200, 400)
	}
	size := func() int {
		switch r.N(6) {
		case 0:
			return e.FA * (1 + r.N(3))
		case 1:
			return e.FA*(1+r.N(2)) + 1
		case 2:
			return 1 + r.N(20)
		}
		return 1 + r.N(1200)
	}
	virt := func() int {
		if r.P(70) {
			return 0
		}
		return r.Pick(1, e.FA, e.SA, 3*e.SA+5, r.N(5000))
	}
	n := r.Between(1, 4)
	if g.is(bigSecs) {
		n = r.Between(10, 95)
		if r.P(15) {
			n = r.Between(96, 300)
		} else if r.P(3) { // headers larger than 64 KB
			n = r.Between(1620, 1700)
		}
	}
	if g.is(bigCode) {
		size0, left := size, 3
		size = func() int {
			if left > 0 && r.P(50) {
				left--
				return r.Pick(0xFFFF, 0x10000, 0x10001, 70000, 100000, r.N(400000))
			}
			return size0()
		}
	}
	for i := 0; i < n; i++ {
		s := SecSpec{S: r.U64() >> 40}
		k := r.N(100)
		switch {
		case i == 0 && k < 85 || k < 25:
			s.K, s.N = "code", size()
		case k < 65:
			s.K, s.N, s.Virt = "data", size(), virt()
		case k < 75:
			s.K, s.N, s.Virt = "zdata", size(), r.N(9000)
		case k < 85:
			s.K, s.N = "bss", 1+r.N(9000)
		case k < 92:
			s.K, s.N = "bssraw", size()
		default:
			s.K, s.N = "empty", 1+r.N(5000)
		}
		if r.P(6) {
			s.Gap = r.N(3)
		}
		if o.plainly && (s.K == "empty" || s.K == "bssraw") {
			s = SecSpec{K: "data", N: size(), S: s.S}
		}
		e.Secs = append(e.Secs, s)
	}
	ins := func(at int, s SecSpec) {
		e.Secs = append(e.Secs, SecSpec{})
		copy(e.Secs[at+1:], e.Secs[at:])
		e.Secs[at] = s
	}
	if r.P(60) { // relocations, last as a rule
		s := SecSpec{K: "reloc", N: 1 + r.N(800), S: r.U64() >> 40}
		if r.P(80) {
			e.Secs = append(e.Secs, s)
		} else {
			ins(r.N(len(e.Secs)+1), s)
		}
	}
	if !r.P(o.noRsrc) {
		s := SecSpec{K: "rsrc"}
		last := len(e.Secs)
		at := last
		if e.Secs[last-1].K == "reloc" {
			switch {
			case r.P(70):
				at = last - 1
			case r.P(50):
				at = r.N(last)
			}
		} else if r.P(30) {
			at = r.N(last + 1)
		}
		if r.P(12) {
			s.Virt = r.Pick(e.SA, 1, e.FA, 2*e.SA+7)
		}
		ins(at, s)
		e.Res = g.items(r.Pick(0, 1, 2, 3, 5, 8))
		if len(e.Res) == 0 && r.P(50) {
			e.Res = g.items(1)
		}
		if r.P(60) {
			e.Lay = RsrcLayout{Depth: r.P(50), Order: r.N(3), Pad: r.Pick(0, 1, 4, 8, 16), RevData: r.P(30), Dup: r.P(30), Junk: uint32(r.U64()), Share: r.P(40)}
			if r.P(30) {
				e.Lay.Lead = r.N(60)
			}
			if r.P(30) {
				e.Lay.Trail = r.N(2000)
			}
			if r.P(15) {
				e.Lay.Shuf = 1 + r.U64()>>40
			}
		}
		if r.P(20) {
			e.Spare = r.Pick(r.N(100), e.FA, e.SA, r.N(3000))
		}
	}
	for i := range e.Secs {
		if r.P(15) {
			d := DirSpec{I: r.Pick(0, 1, 3, 6, 7, 8, 9, 10, 12, 13, 14, 15, 5), Sec: i, Off: r.N(20), N: 1 + r.N(8)}
			if d.I == 8 || r.P(10) {
				d.Z = true
			}
			if e.NDirs > 16 && r.P(40) {
				d.I = r.Between(16, e.NDirs-1)
			}
			e.Dirs = append(e.Dirs, d)
		}
	}
	if r.P(8) && e.Room >= 80 {
		e.Dirs = append(e.Dirs, DirSpec{I: dirBound, Sec: -1, Off: r.Pick(0, 0, 8, 36, 48+r.N(4)*4), N: 8 + r.N(16)})
	}
	if g.is(bigCode) && r.P(50) {
		e.Over = r.Pick(0xFFFF, 0x10000, 0x10001, 100000, r.N(300000))
	} else if r.P(35) {
		e.Over = r.Pick(1, 3, 8, 22, r.N(200), r.N(1500), 511, 513)
		if r.P(12) {
			e.Inner = r.U64()>>40 | 1
			e.Over = len(tinyExe(e.Inner)) + r.Pick(0, 0, r.N(30))
		}
	}
	if r.P(15) {
		e.Names = r.U64()>>20 | 1
	}
	if r.P(30) {
		e.DirSz = r.Between(1, 2)
	}
	if r.P(o.signed) {
		e.Sig = 8 * (1 + r.N(60))
		if r.P(20) {
			e.SigMid = r.Pick(1, 8, r.N(100))
		}
		if e.NDirs < 6 {
			e.NDirs = 6
		}
	}
	e.Sum = r.Pick(0, 1, 1, 2)
	e.NoVS = r.P(6)
	e.Loose = r.P(8)
	if !o.plainly && len(e.Secs) > 1 {
		if r.P(10) {
			e.Fil = 1 + r.U64()>>40
		}
		if r.P(5) {
			e.Tab = 1 + r.U64()>>40
		}
	}
	if r.P(15) {
		e.Sym = r.Pick(1, 2)
		if e.Sym == 1 && e.Over < 22 {
			e.Over = 22 + 18*r.N(5)
		}
	}
	return e
}

// icon makes an ICO or CUR file.
func (g *G) ico(cur bool, max int) IcoSpec {
	r := g.r
	s := IcoSpec{Name: fmt.Sprintf("img%d", len(g.p.Icos)), Cur: cur, Rev: r.P(30)}
	if r.P(30) {
		s.Gap = r.N(20)
	}
	n := r.Between(1, max)
	if r.P(3) {
		n = 0
	}
	if g.is(bigImgs) {
		n = r.Pick(10, 12, 13, 20, 40, 85, 100, 255, 256, 257, 300)
	}
	for ; n > 0; n-- {
		m := ImgSpec{W: r.Pick(16, 16, 32, 32, 48, 64, 256, 1+r.N(256)), Bits: uint16(r.Pick(1, 4, 8, 24, 32, 32)), S: r.U64() >> 40, N: r.Between(1, 300), Pl: 1}
		m.H = m.W
		if r.P(20) {
			m.H = 1 + r.N(256)
		}
		if r.P(20) {
			m.Pl = uint16(r.N(4))
		}
		if r.P(30) {
			m.Col = uint8(r.N(256))
		}
		if r.P(5) {
			m.N = r.Pick(0, 40, 3000, 9000)
		}
		if g.is(bigData|bigImgs) && r.P(3) {
			m.N = r.Pick(65531, 65532, 65535, 65536, 66000, 0x20000, 100000, 200000)
		}
		if r.P(25) {
			m.Png = true
			if r.P(50) {
				m.Bits = 32
			}
		}
		if cur {
			m.Hdr = r.Pick(40, 40, 108, 124)
			m.HX, m.HY = uint16(r.N(m.W)), uint16(r.N(m.H))
			if r.P(10) {
				m.HX = uint16(r.U64())
			}
			if r.P(10) {
				m.HY = uint16(r.U64())
			}
		}
		if k := len(g.imgs); k > 0 && r.P(12) {
			// nearly the same as another one, or its pixels with other dimensions
			o := g.imgs[k-1-r.N(min(k, 4))]
			if r.P(70) {
				hdr := m.Hdr
				m = o
				m.Hdr = hdr
			} else {
				m.N, m.S, m.Png = o.N, o.S, o.Png
			}
			if r.P(80) {
				m.X = 1 + r.N(1<<20)
			}
		}
		g.imgs = append(g.imgs, m)
		s.Im = append(s.Im, m)
	}
	// ties
	if len(s.Im) > 2 && r.P(40) {
		s.Im[1].W, s.Im[1].H, s.Im[1].Bits = s.Im[0].W, s.Im[0].H, s.Im[0].Bits
	}
	return s
}

var verKeys = []string{"FileVersion", "ProductVersion", "ProductName", "CompanyName", "FileDescription", "Comments", "LegalCopyright", "InternalName", "a", "Cl\u00e9", "K \u65e5", "OriginalFilename", "Translation", "StringFileInfo", "VarFileInfo", "040904B0", "fileversion", " a", "VS_VERSION_INFO"}

func (g *G) verVal() string {
	r := g.r
	v := r.PickS("", "x", "1.2.3.4", "value", "\u00e9\u00e8", "\u65e5\u672c\u8a9e", "A longer value, with several words", "\U0001F600", "v\n2", " v", "v ", "v\r\n", "\t", "000004B0")
	if r.P(30) {
		v += fmt.Sprint(r.N(100))
	}
	return v
}

func (g *G) ver() VerSpec {
	r := g.r
	v := VerSpec{Flags: r.Pick(0, 1, 2, 4, 8, 0x20, 0x2F, 5), Type: r.N(3)}
	if r.P(60) {
		v.Type = r.N(2)
	}
	for i := 0; i < 4; i++ {
		v.FV[i], v.PV[i] = uint16(r.Pick(0, 1, r.N(65536), 0xFFFF)), uint16(r.Pick(0, 1, r.N(65536)))
	}
	if r.P(60) {
		v.TS = int64(r.Pick(1, 1000000000, 1600000000, r.N(2000000000)))*10000000 + int64(r.N(10000000))
		if r.P(15) { // any date Windows can tell, from 1601 to 9999
			v.TS = int64(r.Pick(-11644473599, -9300000000, 9300000000, 253402300799, r.N(253402300799)))*10000000 + int64(r.N(10000000))
		}
	}
	langs := r.Pick(0, 1, 1, 2, 2, 3, 4)
	if g.is(bigVer) {
		langs = r.Between(4, 40)
	}
	var ls []uint16
	if langs == 1 && r.P(10) { // the last ones
		ls, langs = append(ls, uint16(r.Pick(0xFFFF, 0xFFFE))), 0
	}
	for i := 0; i < langs; i++ {
		ls = append(ls, uint16(r.Pick(0, 0x409, 0x409, 0x407, 0x40C, 0x411, 1+r.N(0xFFFE))))
	}
	for _, l := range ls {
		n := r.Between(1, 6)
		if g.is(bigVer) && r.P(20) {
			n = r.Between(6, 60)
		}
		for ; n > 0; n-- {
			k := verKeys[r.N(len(verKeys))]
			if r.P(5) {
				k += fmt.Sprint(r.N(99))
			}
			if g.is(bigVer) {
				if n > 6 {
					k += fmt.Sprint(r.N(99))
				}
				if r.P(3) {
					k += longName(r.N(400), r.N(4))
				}
			}
			s := VerStr{L: l, K: k, V: g.verVal()}
			if r.P(6) {
				s.R = r.N(400)
			}
			if g.is(bigVer) && r.P(3) { // close to the limit of 64 KB
				s.V = r.PickS("x", "\u65e5", "1.2.3.4")
				s.R = r.Pick(16370+r.N(30), 255, 256, 32000/len(s.V)-r.N(3000), r.N(4000))
			}
			v.S = append(v.S, s)
		}
	}
	return v
}

// in makes a well-behaved but awkward source.
func (g *G) in() *IOSpec {
	r := g.r
	s := &IOSpec{}
	switch r.N(20) {
	case 0, 1, 2:
		s.K = "sized"
	case 3, 4:
		s.K = "at"
	case 5:
		s.K = "bytes"
	case 6:
		if r.P(35) {
			s.K = "os"
		}
	}
	if r.P(50) {
		s.Chunk = r.Pick(1, 2, 3, 7, 64, 100, 511, 512, 513, 1000, 4095, 4096, 33000, 1+r.N(2000))
		if s.Chunk < 16 && r.P(60) {
			s.Chunk += 30
		}
		if r.P(50) {
			s.RndSeed = 1 + r.U64()>>40
		}
	}
	if r.P(20) {
		s.Zero = r.Pick(2, 3, 5, 17)
	}
	if g.big != 0 && s.Chunk > 0 && s.Chunk < 1000 && g.is(bigData|bigCode|bigSet|bigNames|bigImgs|bigStub|bigSecs) {
		s.Chunk += 1000
	}
	s.EOFData = r.P(30)
	s.Scrib = r.P(30)
	return s
}

// pos leaves the source somewhere.
func (g *G) pos(s *IOSpec, size int) *IOSpec {
	r := g.r
	if n := len(g.p.Exes); n > 0 && n <= 4 && g.big == 0 && r.P(12) {
		// where something looks like a beginning
		if l := magicPlaces(g.p.Exes[r.N(n)].Build()); len(l) > 0 {
			s.Pos = l[r.N(len(l))]
			return s
		}
	}
	switch r.N(5) {
	case 0:
		s.Pos = 0
	case 1:
		s.Pos = int64(r.N(size + 1))
	case 2:
		s.Pos = int64(size)
	case 3:
		s.Pos = int64(size + 1 + r.N(100))
	default:
		s.Pos = int64(r.Pick(1, 0x3c, 64, 65, 0x80, 1<<20))
		if r.P(10) {
			s.Pos = int64(r.Pick(1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+0x80, 5<<30, 1<<35))
		}
	}
	return s
}

// inFault adds faults to a source.
func (g *G) inFault(s *IOSpec) *IOSpec {
	r := g.r
	if s.K == "bytes" || s.K == "os" {
		if s.K == "os" && r.P(30) {
			s.K = r.PickS("osclosed", "oswronly")
			return s
		}
		s.K = ""
	}
	n := 1
	if r.P(12) {
		n = 2
	}
	for ; n > 0; n-- {
		f := Fault{On: "read", At: r.N(1000000), K: r.PickS("err", "err", "part", "eof", "ueof"), Sticky: r.P(40)}
		if r.P(35) {
			f.On, f.K = "seek", "err"
		}
		if r.P(25) {
			f.N, f.At = 1+r.N(12), 0
		} else if r.P(15) {
			f.At = 999999
		} else if f.On == "read" {
			f.Ph = r.P(30)
		}
		if r.P(25) {
			f.E = r.N(len(errKinds))
		}
		s.F = append(s.F, f)
	}
	return s
}

func (g *G) out() *IOSpec {
	r := g.r
	s := &IOSpec{}
	switch r.N(16) {
	case 0, 1:
		s.K = "seeker"
	case 2:
		s.K = "append"
	case 3:
		s.K = "noseek"
	case 4, 5:
		s.K = "from"
	case 6:
		s.K = "seekfrom"
	case 7:
		s.K = "string"
	case 8:
		s.K = "buffer"
	case 9:
		if r.P(30) && g.big == 0 {
			s.K = r.PickS("os", "osappend", "ospipe", "os")
		}
	}
	if r.P(30) && s.K != "buffer" && s.K != "ospipe" {
		s.Stale = r.Pick(1, 50, 600, 5000, 30000)
		switch r.N(3) {
		case 0:
			s.Start = s.Stale
		case 1:
			s.Start = r.N(s.Stale + 1)
		}
		if s.K == "" || s.K == "from" || s.K == "string" {
			s.Start = s.Stale * r.N(2)
		}
	}
	return s
}

func (g *G) outFault(s *IOSpec) *IOSpec {
	r := g.r
	switch s.K {
	case "buffer", "os", "osappend", "ospipe":
		if s.K != "buffer" && r.P(40) {
			s.K = r.PickS("osclosed", "osrdonly", "devfull")
			s.Stale, s.Start = 0, 0
			return s
		}
		s.K = ""
	}
	f := Fault{On: "write", At: r.N(1000001), K: r.PickS("err", "err", "part", "lenerr", "full", "full"), Sticky: r.P(35)}
	if f.K == "full" && r.P(15) {
		f.At = 999999
	}
	if r.P(25) {
		f.N, f.At = 1+r.N(20), 0
		if f.K == "full" {
			f.N = 1 + r.N(3000)
		}
	} else if f.K != "full" {
		f.Ph = r.P(30)
	}
	if (s.K == "seeker" || s.K == "seekfrom" || s.K == "append") && r.P(25) {
		f = Fault{On: "wseek", At: r.N(1000000), K: "err"}
		if r.P(50) {
			f.N = 1 + r.N(4)
		}
	}
	if r.P(35) {
		f.E = r.Pick(1, 1, 2, r.N(len(errKinds)))
	}
	s.F = append(s.F, f)
	return s
}

func (g *G) seed() uint64 { return g.r.U64() >> 40 }

func (g *G) task() *TaskPlan {
	if len(g.p.Tasks) == 0 {
		g.p.Tasks = append(g.p.Tasks, TaskPlan{})
	}
	return &g.p.Tasks[len(g.p.Tasks)-1]
}

func (g *G) op(o Op) {
	t := g.task()
	if o.Seed == 0 {
		o.Seed = g.seed()
	}
	t.Ops = append(t.Ops, o)
	if pct := map[bool]int{false: 3, true: 6}[g.p.Light]; g.r.P(pct) {
		t.Ops = append(t.Ops, Op{O: "decoy", Seed: g.seed()})
	}
}

// edit changes a set a little.
func (g *G) edit(set, n int, big bool) {
	if g.is(bigSet) && n > 0 && g.filled < 3 && g.r.P(60) {
		r := g.r
		g.filled++
		o := Op{O: "fillset", A: set, T: g.typ(), R: g.res(), L: g.lng(), C: 1 + r.N(5), N: r.Pick(250, 255, 256, 257, 300, 600, 1500), D: DataSpec{N: r.Pick(0, 1, 3, 8, 20), S: r.U64() >> 40}}
		if o.N > 300 && (o.C == 3 || o.C == 5) {
			o.N = r.Pick(255, 256, 257)
		}
		g.op(o)
		if r.P(40) {
			g.op(Op{O: "thin", A: set, N: r.Pick(2, 3, 10, 100)})
		}
	}
	for ; n > 0; n-- {
		o := Op{O: "set", A: set, T: g.typ(), R: g.res(), L: g.lng(), D: g.data(big)}
		switch {
		case g.r.P(15):
			o.O = "del"
		case g.r.P(3):
			o.T = g.badIdent()
		case g.r.P(3):
			o.R = g.badIdent()
		}
		g.op(o)
	}
}

func (g *G) badIdent() Ident {
	switch g.r.N(5) {
	case 0:
		return Ident{}
	case 1:
		return Ident{E: true}
	case 2:
		return nname("\x00")
	case 3:
		return Ident{N: g.r.PickS("", "A", "\u00e9"), X: uint8(g.r.Pick(0xFF, 0xE9, 0x80, 0xC3))}
	}
	return nname("A\x00B")
}

func (g *G) exes(n int, o exeOpt) {
	for i := 0; i < n; i++ {
		g.p.Exes = append(g.p.Exes, g.exe(o))
	}
}

// damageExe aims at the structures of an executable.
func (g *G) damageExe(b []byte) []Damage {
	r := g.r
	p, err := parsePE(b)
	if err != nil {
		infra("generated executable: %v", err)
	}
	vals := func() uint32 {
		return uint32(r.Pick(0, 1, 2, 0x10, 0x28, 0x200, 0x1000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFE00, 0xFFFFF000, len(b), len(b)-1, int(r.U64()&0xFFFFFFFF)))
	}
	hdr := p.lf
	oh := hdr + 24
	st := oh + len(p.oh)
	rs, rsn, va := 0, 0, uint32(0)
	if i := p.rsrcSec(); i >= 0 && p.secs[i].inFile() {
		rs, rsn, va = int(p.secs[i].Ptr), int(p.secs[i].Raw), p.secs[i].VA
		if d := int(p.dir(dirRes)[1]); d < rsn && d > 0 {
			rsn = d
		}
	}
	var entries []int
	if m, err := p.rsrcModel(); err == nil {
		entries = m.entries
	}
	var l []Damage
	n := r.Pick(1, 1, 1, 2, 2, 3, 5)
	for ; n > 0; n-- {
		d := Damage{K: "u32", V: vals()}
		switch r.N(13) {
		case 0: // file header
			d.At = hdr + r.Pick(0, 4, 6, 8, 12, 20, 22)
			if r.P(60) {
				d.K = "u16"
				d.V = uint32(r.Pick(0, 1, 2, 0xFFFF, 0xE0, 0xF0, 0x60, 0x70, 0x8000, r.N(300)))
			}
		case 1: // optional header
			d.At = oh + r.Pick(0, 8, 32, 36, 56, 60, 64, p.dd-4)
			if r.P(50) {
				d.V = uint32(r.Pick(0, 1, 5, 6, 7, 16, 3, 0x100, 0x10000, 0x10001, 0x80000000))
			}
		case 2: // directories
			d.At = oh + p.dd + 8*r.Pick(2, 2, 4, 5, r.N(len(p.dirs))) + 4*r.N(2)
			if r.P(40) && len(p.secs) > 0 {
				d.V = p.secs[r.N(len(p.secs))].VA
			}
		case 3, 4: // section table
			if len(p.secs) == 0 {
				continue
			}
			d.At = st + 40*r.N(len(p.secs)) + r.Pick(8, 12, 16, 20, 16, 20, 36)
			if r.P(30) {
				d.K, d.V = "add", uint32(r.Pick(1, -1&0xFFFFFFFF, 0x200, 0x1000, 0xFFFFFE00))
			}
		case 5, 6, 7, 8: // resource tables
			if rsn < 16 {
				continue
			}
			d.At = rs + r.N(min(rsn, 600))&^3
			switch r.N(6) {
			case 0:
				d.K, d.V = "add", uint32(r.Pick(1, 2, 4, 8, 16, -1&0xFFFFFFFF, -8&0xFFFFFFFF, 0x80000000))
			case 1:
				d.V = uint32(r.N(rsn)) | 0x80000000
			case 2:
				d.V = uint32(r.N(rsn+8)) + va
			case 3:
				d.V = uint32(r.N(rsn + 8))
			case 4:
				d.K, d.V = "u16", uint32(r.Pick(0, 1, 2, 3, 0xFFFF, 0x100, r.N(40)))
				d.At = rs + r.N(min(rsn, 400))&^1
			}
		case 12: // data entries, around the bounds of the section
			if len(entries) == 0 {
				continue
			}
			e := rs + entries[r.N(len(entries))]
			a, sz := le.Uint32(b[e:])-va, le.Uint32(b[e+4:])
			end := p.secs[p.rsrcSec()].Raw
			k := uint32(r.Pick(-8, -1, 0, 1, 2, 5, 7, 8, 100))
			switch r.N(4) {
			case 0:
				d.At, d.V = e+4, end-a+k
			case 1:
				d.At, d.V = e, va+end-sz+k
			case 2:
				d.At, d.V = e, va-uint32(r.Pick(1, 8, int(sz), int(sz)+1, int(sz)/2+1))
			case 3:
				d.At, d.V = e+4, k-a
			}
		case 9:
			d = Damage{K: "flip", At: r.N(min(len(b), st+40*len(p.secs)+rsn)), V: uint32(r.N(8))}
			if rsn > 0 && r.P(50) {
				d.At = rs + r.N(rsn)
			}
		case 10:
			d = Damage{K: r.PickS("zero", "fill", "copy"), At: r.N(len(b)), V: uint32(r.U64()), N: 1 + r.N(64)}
			if r.P(40) && rsn > 0 {
				d.At = rs + r.N(rsn)
			}
			if r.P(10) {
				d.N = 512
			}
		case 11:
			d = Damage{K: "cut", At: r.N(len(b))}
			if r.P(30) {
				d.At = len(b) - 1 - r.N(min(len(b), 20))
			}
		}
		l = append(l, d)
	}
	return l
}

func (g *G) damageIco(b []byte, n int) []Damage {
	r := g.r
	var l []Damage
	for k := r.Pick(1, 1, 2, 3); k > 0; k-- {
		d := Damage{K: "u32", V: uint32(r.Pick(0, 1, 5, 0xA00000, 0xA00001, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, len(b), len(b)+1, r.N(len(b)+40)))}
		switch r.N(6) {
		case 0:
			d.At, d.K, d.V = r.Pick(0, 2, 4), "u16", uint32(r.Pick(0, 1, 2, 3, 0xFFFF, n+1, n-1))
		case 1, 2:
			d.At = 6 + 16*r.N(n+1) + r.Pick(8, 12)
		case 3:
			d.At, d.K, d.V = r.N(6+16*n), "set", uint32(r.N(256))
		case 4:
			d = Damage{K: r.PickS("flip", "zero", "fill", "copy"), At: r.N(len(b)), V: uint32(r.N(len(b))), N: 1 + r.N(40)}
		case 5:
			d = Damage{K: "cut", At: r.N(len(b) + 1)}
		}
		l = append(l, d)
	}
	return l
}

// damageAny aims at nothing in particular in a structure of about n bytes.
func (g *G) damageAny(n int) []Damage {
	r := g.r
	var l []Damage
	for k := r.Pick(1, 1, 2, 3); k > 0; k-- {
		d := Damage{At: r.N(n)}
		switch r.N(7) {
		case 0, 1:
			d.K, d.At, d.V = "u16", d.At&^1, uint32(r.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 0x34, 0xFFFF, 0x8000, r.N(200)))
		case 2:
			d.K, d.V = "flip", uint32(r.N(8))
		case 3:
			d.K, d.V = "set", uint32(r.N(256))
		case 4:
			d.K, d.N, d.V = r.PickS("zero", "fill", "copy"), 1+r.N(30), uint32(r.U64())
		case 5:
			d.K = "cut"
		case 6:
			d.K, d.At, d.V = "add", d.At&^1, uint32(r.Pick(1, 2, 4, 0xFFFFFFFF, 0xFFFFFFFE, 0x10000))
		}
		l = append(l, d)
	}
	return l
}
