package main

// What the runs of each property consist of.

var generators = map[string]func(*G){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06,
	"C07": genC07, "C08": genC08, "C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12,
	"C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16, "C17": genC17, "C18": genC18,
}

// genC01: generations of an executable.
func genC01(g *G) {
	r := g.r
	if newRng(g.p.Seed, 4).N(1200) == 0 {
		g.huge(false)
		return
	}
	if g.far(700) {
		return
	}
	g.exes(r.Between(1, 2), exeOpt{signed: 8, tight: 8, noRsrc: 35})
	faults := r.P(45)
	cur := r.N(len(g.p.Exes)) // file being worked on
	g.edit(0, r.Between(1, 6), true)
	if r.P(15) {
		g.p.Icos = append(g.p.Icos, g.ico(false, 4))
		g.op(Op{O: "loadico", A: 0, B: 4})
		g.op(Op{O: "seticon", A: 0, B: 0, R: g.res(), HasL: r.P(40), L: g.lng()})
	}
	for n := r.Between(1, 4); n > 0; n-- {
		if r.P(35) {
			g.op(Op{O: "load", A: 0, B: cur, In: g.in()})
			g.edit(0, r.Between(1, 4), r.P(40))
		}
		o := Op{O: "saveexe", A: 0, B: cur, C: 7 + r.N(3), In: g.in(), Out: g.out(), Sig: r.N(3), Force: r.P(25), Retry: r.P(40)}
		if r.P(50) {
			o.In, o.Out = nil, nil
		}
		if faults && r.P(50) {
			if o.In == nil {
				o.In, o.Out = &IOSpec{}, &IOSpec{}
			}
			switch r.N(4) {
			case 0:
				g.inFault(o.In)
			case 1, 2:
				g.outFault(o.Out)
			default:
				o.Out.K = ""
				o.Out.F = []Fault{{On: "write", At: r.N(1000001), K: "crash"}}
			}
		}
		g.op(o)
		if r.P(50) {
			o := Op{O: "load", A: 1 + r.N(2), B: o.C, In: g.in()}
			if faults && r.P(25) {
				g.inFault(o.In)
				o.Retry = r.P(50)
			}
			g.op(o)
		}
		if r.P(70) {
			cur = o.C
		}
		if r.P(25) {
			g.edit(0, r.Between(1, 3), r.P(30))
		}
		if r.P(8) {
			g.op(Op{O: "crash"})
			g.edit(0, r.Between(0, 2), false)
		}
	}
	g.op(Op{O: "load", A: 3, B: cur, In: g.in()})
	g.op(Op{O: "check", A: 0})
}

// huge makes offsets of more than 24 bits.
func (g *G) huge(obj bool) {
	r := g.r
	g.exes(1, exeOpt{noRsrc: 50, small: true, plainly: true})
	g.edit(0, r.Between(1, 3), false)
	g.op(Op{O: "set", A: 0, T: g.typ(), R: g.res(), L: g.lng(), D: DataSpec{N: 1<<24 + r.Pick(-200, -8, 0, 1, 70000, 1<<19), S: r.U64() >> 40}})
	g.edit(0, r.Between(2, 5), false)
	if obj || r.P(25) {
		g.op(Op{O: "saveobj", A: 0, Arch: g.arch(0)})
		return
	}
	g.op(Op{O: "saveexe", A: 0, B: 0, C: 7})
	g.op(Op{O: "load", A: 1, B: 7})
}

// far works on an executable of more than 16 MB, once in many runs.
func (g *G) far(oneIn int) bool {
	if newRng(g.p.Seed, 4).N(oneIn) != 0 {
		return false
	}
	r := g.r
	g.exes(1, exeOpt{signed: 40, noRsrc: 50, small: true})
	e := &g.p.Exes[0]
	n := 1<<24 + r.Pick(-0x3000, -0x600, -8, 1, 3, 70000, 1<<20)
	if e.Sym == 0 && r.P(30) {
		e.Sym = 1
	}
	if r.P(40) && e.Tight == 0 {
		e.Stub = n >> uint(r.Pick(0, 1, 1, 2)) &^ 7
	} else if r.P(50) && e.Inner == 0 {
		e.Over = n
	} else {
		for i := range e.Secs {
			if e.Secs[i].K == "code" || e.Secs[i].K == "data" {
				e.Secs[i].N = n
				break
			}
		}
	}
	g.edit(0, r.Between(1, 3), false)
	for n := r.Between(1, 2); n > 0; n-- {
		if r.P(50) {
			g.op(Op{O: "issigned", B: 0, In: g.bulk(true)})
		}
		o := Op{O: "saveexe", A: 0, B: 0, C: 7, Sig: r.Pick(1, 2, 2, 0), Force: r.P(50), In: g.bulk(true), Out: g.bulk(false), Retry: r.P(50)}
		switch r.N(4) {
		case 0:
			g.inFault(o.In)
		case 1:
			g.outFault(o.Out)
		}
		g.op(o)
	}
	g.op(Op{O: "load", A: 1, B: 7, In: g.bulk(true)})
	return true
}

// bulk is a stream for much data.
func (g *G) bulk(in bool) *IOSpec {
	r := g.r
	s := &IOSpec{}
	if !in {
		s.K = r.PickS("", "seeker", "from", "buffer")
		return s
	}
	s.K = r.PickS("", "", "sized", "at")
	s.EOFData = r.P(30)
	if r.P(30) {
		s.Pos = int64(r.Pick(1, 0x3c, 1<<24, 1<<24+77, 1<<25+1<<24, 1<<33))
	}
	return s
}

// genC02: all sorts of executables, patched again and again.
func genC02(g *G) {
	r := g.r
	if g.far(900) {
		return
	}
	g.exes(1, exeOpt{signed: 15, tight: 20, noRsrc: 25})
	cur := 0
	for n := r.Between(1, 4); n > 0; n-- {
		switch r.N(5) {
		case 0:
			g.op(Op{O: "newset", A: 0})
		case 1, 2:
			g.op(Op{O: "load", A: 0, B: cur})
		}
		g.edit(0, r.Between(0, 4), r.P(50))
		if r.P(25) { // exactly around alignments
			g.op(Op{O: "set", A: 0, T: g.typ(), R: g.res(), L: g.lng(), D: DataSpec{N: r.Pick(0x200, 0x400, 0x1000, 0x2000)*r.Between(1, 3) - 72 - r.N(40), S: g.seed()}})
		}
		o := Op{O: "saveexe", A: 0, B: cur, C: 7 + n%3, Sig: r.Pick(1, 2, 2, 0), Force: r.P(20)}
		if r.P(35) {
			o.In, o.Out = g.in(), g.out()
			o.Retry = true
			if r.P(40) {
				g.outFault(o.Out)
			} else if r.P(40) {
				g.inFault(o.In)
			}
		}
		g.op(o)
		if r.P(85) {
			cur = o.C
		}
	}
}

// genC03: checksums.
func genC03(g *G) {
	r := g.r
	if g.far(900) {
		return
	}
	g.exes(1, exeOpt{signed: 15, tight: 5, noRsrc: 35})
	if r.P(70) {
		g.p.Exes[0].Sum = r.Pick(1, 1, 2)
	}
	cur := 0
	for n := r.Between(1, 3); n > 0; n-- {
		g.edit(0, r.Between(1, 4), r.P(30))
		o := Op{O: "saveexe", A: 0, B: cur, C: 7 + n%3, Sig: r.Pick(1, 2), Force: r.P(45), In: g.in(), Out: g.out(), Retry: r.P(70)}
		switch r.N(10) {
		case 0, 1, 2, 3, 4:
			g.inFault(o.In)
			if r.P(70) {
				for i := range o.In.F {
					o.In.F[i].Sticky = false
				}
			}
		case 5:
			g.outFault(o.Out)
		case 6:
			o.In, o.Out = nil, nil
		}
		g.op(o)
		if r.P(85) {
			cur = o.C
		}
	}
}

// genC04: destinations that fail.
func genC04(g *G) {
	r := g.r
	if g.far(1500) {
		return
	}
	if r.P(75) {
		g.exes(1, exeOpt{signed: 8, tight: 5, noRsrc: 40})
	}
	if r.P(60) {
		g.p.Icos = append(g.p.Icos, g.ico(false, 5), g.ico(true, 4))
		g.op(Op{O: "loadico", A: 0, B: 4})
		g.op(Op{O: "loadcur", A: 0, B: 5})
		if r.P(25) {
			g.op(Op{O: "newicon", A: 0, N: r.Between(1, 3)})
		}
	}
	g.edit(0, r.Between(0, 6), r.P(50))
	for n := r.Between(1, 4); n > 0; n-- {
		o := Op{A: 0, B: 0, C: 7 + n%3, Sig: r.Pick(1, 2, 2), Out: g.out(), Retry: r.P(50), Arch: g.arch(3), Force: r.P(30)}
		o.O = r.PickS("saveexe", "saveexe", "saveobj", "saveobj", "saveico", "savecur")
		if r.P(85) {
			g.outFault(o.Out)
		}
		if r.P(30) && o.O == "saveexe" {
			o.In = g.in()
		}
		g.op(o)
		if r.P(20) {
			g.edit(0, 1, false)
		}
	}
}

func (g *G) arch(badPct int) string {
	if g.r.P(badPct) {
		return g.r.PickS("", "mips", "x86", "AMD64", "amd64 ", "i386", "arm6", "riscv64", "\x00")
	}
	return g.r.PickS("386", "amd64", "arm", "arm64")
}

// genC05: sources that fail.
func genC05(g *G) {
	r := g.r
	if g.far(1500) {
		return
	}
	g.exes(1, exeOpt{signed: 35, tight: 5, noRsrc: 30})
	if r.P(40) {
		g.p.Icos = append(g.p.Icos, g.ico(false, 5), g.ico(true, 4))
	}
	g.edit(0, r.Between(1, 4), false)
	for n := r.Between(1, 5); n > 0; n-- {
		o := Op{A: 1, B: 0, In: g.in(), Retry: r.P(40)}
		switch r.N(9) {
		case 0, 1:
			o.O = "load"
		case 2:
			o.O, o.T = "loadtype", g.typ()
		case 3, 4:
			o.O = "issigned"
			if r.P(50) {
				g.pos(o.In, 2000)
			}
		case 5, 6:
			o.O, o.A, o.C, o.Sig, o.Force = "saveexe", 0, 7+n%3, r.Pick(1, 2, 2, 0), r.P(40)
			if r.P(40) {
				o.Out = g.out()
			}
		case 7:
			o.O, o.B = "loadico", 4
		case 8:
			o.O, o.B = "loadcur", 5
		}
		if r.P(85) {
			g.inFault(o.In)
		}
		g.op(o)
	}
}

// icons of a generated executable
func (g *G) iconItems(n int) []ResItem {
	r := g.r
	var l []ResItem
	next := [2]int{1 + r.N(3), 1 + r.N(3)}
	for ; n > 0; n-- {
		cur := r.P(40)
		k, gt, it := 0, nid(rtGroupIcon), nid(rtIcon)
		if cur {
			k, gt, it = 1, nid(rtGroupCursor), nid(rtCursor)
		}
		s := g.ico(cur, 3)
		im := sortImgs(s.imgs())
		grp := make([]byte, 6+14*len(im))
		le.PutUint16(grp[2:], uint16(1+k))
		le.PutUint16(grp[4:], uint16(len(im)))
		for i, m := range im {
			e := grp[6+14*i:]
			d := m.Data
			if cur {
				le.PutUint16(e, uint16(m.W))
				le.PutUint16(e[2:], uint16(m.H))
				d = append([]byte{byte(m.HX), byte(m.HX >> 8), byte(m.HY), byte(m.HY >> 8)}, d...)
			} else {
				e[0], e[1], e[2], e[3] = byte(m.W), byte(m.H), m.Colors, m.Res
			}
			le.PutUint16(e[4:], m.Planes)
			le.PutUint16(e[6:], m.Bits)
			le.PutUint32(e[8:], uint32(len(d)))
			le.PutUint16(e[12:], uint16(next[k]))
			l = append(l, ResItem{T: it, R: nid(next[k]), L: g.lng(), D: DataSpec{B: d}})
			if len(d) == 0 {
				l[len(l)-1].D = DataSpec{}
			}
			next[k] += 1 + r.N(2)
		}
		l = append(l, ResItem{T: gt, R: g.res(), L: g.lng(), D: DataSpec{B: grp}})
	}
	return l
}

func (g *G) verItem() ResItem {
	v := g.ver()
	m := v.model()
	if m.verSize() > 20000 {
		m.T = map[uint16]map[string]string{0: {"a": "b"}}
	}
	return ResItem{T: nid(rtVersion), R: nid(1), L: g.lng(), D: DataSpec{B: buildVersion(m, g.r.P(50))}}
}

// genC06: damaged files.
func genC06(g *G) {
	r := g.r
	switch r.N(10) {
	case 0, 1, 2, 3, 4, 5:
		e := g.exe(exeOpt{signed: 15, tight: 10, noRsrc: 10, small: true})
		if e.hasRsrc() {
			if r.P(40) {
				e.Res = append(e.Res, g.iconItems(r.Between(1, 2))...)
			}
			if r.P(25) {
				e.Res = append(e.Res, g.verItem())
			}
		}
		g.p.Exes = append(g.p.Exes, e)
		if r.P(30) {
			g.exes(1, exeOpt{noRsrc: 50, plainly: true})
		}
		b := e.Build()
		for n := r.Between(1, 4); n > 0; n-- {
			g.op(Op{O: "damage", B: 0, C: 7, Dmg: g.damageExe(b)})
			o := Op{O: "probe", B: 7}
			if r.P(25) {
				o.In = g.in()
				if r.P(40) {
					g.pos(o.In, len(b))
				}
			}
			g.op(o)
			if r.P(70) {
				g.op(Op{O: "newset", A: 0})
				g.edit(0, r.Between(0, 3), r.P(20))
				g.op(Op{O: "saveexe", A: 0, B: 7, C: 8, Sig: r.N(3), Force: r.P(30), Out: g.out()})
			}
		}
	case 6, 7:
		cur := r.P(50)
		s := g.ico(cur, 4)
		g.p.Icos = append(g.p.Icos, s)
		b := s.Build()
		for n := r.Between(2, 6); n > 0; n-- {
			g.op(Op{O: "damage", B: 4, C: 7, Dmg: g.damageIco(b, len(s.Im))})
			o := Op{O: "probe", B: 7}
			if r.P(30) {
				o.In = g.in()
			}
			g.op(o)
		}
	case 8:
		if r.P(70) {
			g.p.Vers = append(g.p.Vers, g.ver())
			g.op(Op{O: "newver", A: 0})
			for n := r.Between(3, 10); n > 0; n-- {
				g.op(Op{O: "vdamage", A: 0, Dmg: g.damageAny(r.Pick(100, 200, 400, 1000))})
			}
		} else {
			for n := r.Between(1, 4); n > 0; n-- {
				g.op(Op{O: "mdamage", D: DataSpec{B: []byte(g.verVal())}, Dmg: g.damageAny(r.Pick(300, 1500, 2500))})
			}
		}
	case 9: // groups
		cur := r.P(50)
		g.p.Icos = append(g.p.Icos, g.ico(cur, 4))
		k := kindOf(cur)
		if r.P(40) {
			g.exes(1, exeOpt{noRsrc: 50, plainly: true, small: true})
		}
		g.op(Op{O: "load" + k, A: 0, B: 4})
		g.op(Op{O: map[bool]string{false: "seticon", true: "setcur"}[cur], A: 0, B: 0, R: g.res(), HasL: r.P(30), L: g.lng()})
		for n := r.Between(2, 8); n > 0; n-- {
			g.op(Op{O: "gdamage", A: 0, N: r.N(2), Dmg: g.damageAny(r.Pick(6, 20, 20, 62))})
		}
	}
}

// genC07: equal contents through different histories.
func genC07(g *G) {
	r := g.r
	if r.P(40) {
		g.p.Vers = append(g.p.Vers, g.ver(), g.ver())
	}
	if r.P(60) {
		g.exes(r.Between(1, 2), exeOpt{noRsrc: 40, tight: 5, small: true})
	}
	g.edit(0, r.Between(2, 14), false)
	if len(g.p.Exes) > 0 && r.P(40) {
		g.op(Op{O: "load", A: 0, B: 0})
		g.edit(0, r.Between(0, 5), false)
	}
	if r.P(20) {
		g.p.Icos = append(g.p.Icos, g.ico(false, 4))
		g.op(Op{O: "loadico", A: 0, B: 4})
		g.op(Op{O: "seticon", A: 0, B: 0, R: g.res()})
	}
	for n := r.Between(1, 3); n > 0; n-- {
		g.op(Op{O: "twin", A: 0, N: r.N(2)})
		if len(g.p.Vers) > 0 {
			g.op(Op{O: "newver", A: 0, N: r.N(2)})
			if r.P(60) {
				g.verEdits(0, r.Between(1, 4))
			}
			g.op(Op{O: "vbytes", A: 0, N: r.N(2)})
			if r.P(60) {
				g.op(Op{O: "setver", A: 0, B: 0})
				g.op(Op{O: "getver", A: 0, B: 1})
			}
		}
		g.op(Op{O: r.PickS("walktype", "check", "walkin", "count"), A: 0, T: g.typ(), N: r.N(5)})
		o := Op{O: "saveobj", A: 0, Arch: g.arch(2), Out: g.out()}
		if r.P(50) {
			g.outFault(o.Out)
			o.Retry = true
		}
		g.op(o)
		g.edit(0, r.Between(0, 5), false)
		if r.P(30) && len(g.p.Exes) > 0 {
			g.op(Op{O: "saveexe", A: 0, B: 0, C: 7, Sig: 2})
			g.op(Op{O: "load", A: 0, B: 7})
		}
	}
	g.op(Op{O: "twin", A: 0})
}

func (g *G) verEdits(v, n int) {
	for ; n > 0; n-- {
		if g.r.P(25) {
			g.op(Op{O: "vfile", A: v, N: g.r.N(2)})
			continue
		}
		k := verKeys[g.r.N(len(verKeys))]
		if g.r.P(6) {
			k = g.r.PickS("", "a\x00b")
		}
		val := g.verVal()
		if g.r.P(4) {
			val = "x\x00y"
		}
		g.op(Op{O: "vset", A: v, L: uint16(g.r.Pick(0, 0x409, 0x407, 0x40C, 0x1234)), T: Ident{N: k}, D: DataSpec{B: []byte(val)}})
	}
}

// genC08: long histories of one or two sets.
func genC08(g *G) {
	r := g.r
	if r.P(45) {
		g.exes(1, exeOpt{noRsrc: 40, tight: 5, small: true})
	}
	n := r.Pick(6, 12, 25, 50, 90)
	for ; n > 0; n-- {
		a := 0
		if r.P(10) {
			a = 1
		}
		switch r.N(24) {
		case 0:
			g.op(Op{O: "check", A: a})
		case 1:
			g.op(Op{O: "count", A: a})
		case 2, 3:
			g.op(Op{O: "get", A: a, T: g.typ(), R: g.res(), L: g.lng()})
		case 4:
			g.op(Op{O: "walkstop", A: a, N: r.N(8), HasL: r.P(40), T: g.typ()})
		case 5:
			g.op(Op{O: "walktype", A: a, T: g.typ()})
		case 6:
			g.op(Op{O: "walkin", A: a, N: 1 + r.N(6)})
		case 7:
			o := Op{O: "saveobj", A: a, Arch: g.arch(5), Out: g.out()}
			if r.P(50) {
				g.outFault(o.Out)
			}
			g.op(o)
		case 8, 9:
			if len(g.p.Exes) == 0 {
				continue
			}
			o := Op{O: "saveexe", A: a, B: 0, C: 7, Sig: r.N(3), In: g.in(), Out: g.out()}
			if r.P(40) {
				if r.P(50) {
					g.inFault(o.In)
				} else {
					g.outFault(o.Out)
				}
			}
			g.op(o)
			if r.P(50) {
				g.op(Op{O: "load", A: r.N(2), B: 7})
			}
		case 10, 11, 12, 13:
			g.op(Op{O: "del", A: a, T: g.typ(), R: g.res(), L: g.lng()})
		case 14:
			o := Op{O: "set", A: a, T: g.typ(), R: g.res(), L: g.lng(), D: g.data(false)}
			if r.P(60) {
				o.R = g.badIdent()
			} else {
				o.T = g.badIdent()
			}
			if r.P(20) {
				o.D = DataSpec{Nil: true}
			}
			g.op(o)
		case 15:
			if r.P(30) {
				g.op(Op{O: "setmanifest", A: a, N: r.N(12), D: DataSpec{B: []byte(g.verVal())}})
			} else if r.P(30) {
				g.op(Op{O: "newicon", A: 0, N: r.Between(1, 3)})
				o := Op{O: "seticon", A: a, B: 0, R: g.res(), L: g.lng(), HasL: r.P(50)}
				if r.P(40) {
					o.R = g.badIdent()
				}
				g.op(o)
			} else if r.P(30) {
				g.op(Op{O: "newcur", A: 0, N: r.Between(1, 3)})
				o := Op{O: "setcur", A: a, B: 0, R: g.res(), L: g.lng(), HasL: r.P(50)}
				if r.P(40) {
					o.R = g.badIdent()
				}
				g.op(o)
			}
		default:
			g.op(Op{O: "set", A: a, T: g.typ(), R: g.res(), L: g.lng(), D: g.data(false)})
		}
	}
	g.op(Op{O: "check", A: 0})
	g.op(Op{O: "check", A: 1})
}

// genC09: icons and cursors of a set.
func genC09(g *G) {
	r := g.r
	g.p.Icos = []IcoSpec{g.ico(false, 5), g.ico(true, 4), g.ico(r.P(50), 3)}
	if r.P(60) {
		e := g.exe(exeOpt{noRsrc: 15, plainly: true, small: true})
		if e.hasRsrc() {
			e.Res = append(e.Res, g.iconItems(r.Between(1, 3))...)
		}
		g.p.Exes = append(g.p.Exes, e)
	}
	g.op(Op{O: "loadico", A: 0, B: 4, In: g.in()})
	g.op(Op{O: "loadcur", A: 0, B: 5, In: g.in()})
	g.op(Op{O: "load" + kindOf(g.p.Icos[2].Cur), A: 1, B: 6})
	if r.P(30) {
		g.op(Op{O: "newicon", A: 2, N: r.Between(1, 4)})
	}
	if r.P(20) {
		g.op(Op{O: "newcur", A: r.Pick(2, 0), N: r.Between(1, 3)})
	}
	if r.P(20) { // numbers near the end
		g.op(Op{O: "set", A: 0, T: nid(r.Pick(rtIcon, rtCursor)), R: nid(0xFFFF - r.N(9)), L: g.lng(), D: DataSpec{N: r.Between(4, 30), S: g.seed()}})
	}
	for n := r.Between(3, 16); n > 0; n-- {
		cur := r.P(40)
		k := map[bool]string{false: "icon", true: "cur"}[cur]
		switch r.N(16) {
		case 0, 1, 2, 3, 4:
			g.op(Op{O: "set" + k, A: r.Pick(0, 0, 0, 1), B: r.N(4), R: g.res(), L: g.lng(), HasL: r.P(50)})
		case 5, 6, 7:
			g.op(Op{O: "get" + k, A: r.Pick(0, 0, 0, 1), B: r.N(4), R: g.res(), L: g.lng(), HasL: r.P(50)})
		case 8: // the images and groups as plain resources
			g.op(Op{O: r.PickS("set", "del"), A: 0, T: nid(r.Pick(rtIcon, rtCursor, rtGroupIcon, rtGroupCursor)), R: r2(g), L: g.lng(), D: g.data(false)})
		case 9:
			if len(g.p.Exes) > 0 {
				g.op(Op{O: "load", A: 0, B: 0, In: g.in()})
			}
		case 10, 11:
			if len(g.p.Exes) > 0 {
				o := Op{O: "saveexe", A: 0, B: r.Pick(0, 0, 7), C: 7, Sig: 2, In: g.in(), Out: g.out(), Retry: true}
				if r.P(40) {
					if r.P(50) {
						g.inFault(o.In)
					} else {
						g.outFault(o.Out)
					}
				}
				g.op(o)
				if r.P(70) {
					g.op(Op{O: r.PickS("load", "load", "loadtype"), A: 0, B: 7, T: nid(r.Pick(rtGroupIcon, rtGroupCursor)), In: g.in()})
				}
			}
		case 12:
			o := Op{O: "saveico", B: r.N(4), C: 9, Out: g.out(), Retry: true}
			if cur {
				o.O, o.C = "savecur", 10
			}
			if r.P(30) {
				g.outFault(o.Out)
			}
			g.op(o)
		case 13:
			if cur {
				g.op(Op{O: "loadcur", A: r.N(4), B: 10, In: g.in()})
			} else {
				g.op(Op{O: "loadico", A: r.N(4), B: 9, In: g.in()})
			}
		case 14:
			g.op(Op{O: "del", A: 0, T: nid(r.Pick(rtIcon, rtCursor, rtGroupIcon, rtGroupCursor)), R: r2(g), L: g.lng()})
		case 15:
			g.op(Op{O: "check", A: 0})
		}
	}
	for _, k := range []string{"geticon", "getcur"} {
		for i := range g.rs {
			g.op(Op{O: k, A: 0, B: 5, R: g.rs[i]})
		}
	}
}

func r2(g *G) Ident {
	if g.r.P(50) {
		return nid(1 + g.r.N(8))
	}
	return g.res()
}

// genC10: several tasks at once.
func genC10(g *G) {
	r := g.r
	g.p.Light = true
	e := g.exe(exeOpt{noRsrc: 30, plainly: true, small: true, signed: 10})
	if e.hasRsrc() && r.P(50) {
		e.Res = append(e.Res, g.iconItems(1)...)
	}
	g.p.Exes = []ExeSpec{e}
	if r.P(60) {
		g.exes(1, exeOpt{noRsrc: 30, plainly: true, small: true})
	}
	file := func() int { return r.N(len(g.p.Exes)) }
	g.p.Icos = []IcoSpec{g.ico(false, 3), g.ico(true, 3)}
	g.p.Vers = []VerSpec{g.ver(), g.ver()}
	nt := r.Pick(2, 2, 3)
	focus := r.N(6)
	for ; nt > 0; nt-- {
		g.p.Tasks = append(g.p.Tasks, TaskPlan{})
		t := g.task()
		swap := func() { t.Pre, t.Ops = t.Ops, t.Pre }
		swap()
		g.edit(0, r.N(4), false)
		if r.P(70) {
			g.op(Op{O: "loadico", A: 0, B: 4})
			g.op(Op{O: "loadcur", A: 0, B: 5})
		}
		if r.P(50) { // sets built from a common icon or cursor
			g.op(Op{O: "shareimg", A: 0, B: 3})
			g.op(Op{O: "shareimg", A: 1, B: 3})
			if r.P(60) { // the same images get other numbers
				g.op(Op{O: "set", A: r.N(3), T: nid(r.Pick(rtIcon, rtCursor)), R: nid(r.Pick(1, 5, 255, 300, 4000)), L: g.lng(), D: DataSpec{N: r.Between(4, 30), S: g.seed()}})
			}
			for k := r.Between(1, 3); k > 0; k-- {
				g.op(Op{O: r.PickS("seticon", "setcur"), A: r.N(3), B: 3, R: g.res(), L: g.lng(), HasL: r.P(40)})
			}
		}
		if r.P(60) {
			g.op(Op{O: "newver", A: 0, N: r.N(2)})
		}
		if r.P(40) {
			g.op(Op{O: "load", A: 1, B: file()})
		}
		t.Pre, t.Ops = t.Ops, nil
		for n := r.Between(1, 3); n > 0; n-- {
			k := r.N(12)
			if r.P(60) {
				k = 2*focus + r.N(2)
			}
			switch k {
			case 0, 1:
				o := Op{O: "saveexe", A: r.N(2), B: r.Pick(file(), file(), 7), C: 7, Sig: r.Pick(1, 2, 2, 0), Force: r.P(40), In: g.lightIn(), Out: g.lightOut()}
				g.op(o)
			case 2:
				g.op(Op{O: "load", A: r.N(3), B: r.Pick(file(), file(), 7), In: g.lightIn()})
			case 3:
				g.op(Op{O: "loadtype", A: r.N(3), B: file(), T: g.typ(), In: g.lightIn()})
				g.op(Op{O: "issigned", B: file(), In: g.lightIn()})
			case 4, 5:
				g.op(Op{O: "saveobj", A: r.N(3), Arch: g.arch(2), Out: g.lightOut()})
				g.op(Op{O: "check", A: r.N(2)})
			case 6:
				g.op(Op{O: "loadico", A: 0, B: 4, In: g.lightIn()})
				g.op(Op{O: "saveico", B: 0, C: 8, Out: g.lightOut()})
				g.op(Op{O: "seticon", A: r.N(3), B: 0, R: g.res()})
				g.op(Op{O: "seticon", A: r.N(3), B: 0, R: g.res()})
				g.op(Op{O: "geticon", A: r.N(3), B: 1, R: g.res()})
				g.op(Op{O: "check", A: r.N(3)})
			case 7:
				g.op(Op{O: "loadcur", A: 0, B: 5, In: g.lightIn()})
				g.op(Op{O: "savecur", B: 0, C: 9, Out: g.lightOut()})
				g.op(Op{O: "setcur", A: r.N(3), B: 0, R: g.res()})
				g.op(Op{O: "setcur", A: r.N(3), B: 0, R: g.res()})
				g.op(Op{O: "getcur", A: r.N(3), B: 1, R: g.res()})
				g.op(Op{O: "check", A: r.N(3)})
			case 8:
				g.op(Op{O: "newver", A: 1, N: r.N(2)})
				g.op(Op{O: "vbytes", A: 1})
				g.op(Op{O: "setver", A: 0, B: 1})
				g.op(Op{O: "getver", A: 0, B: 2})
			case 9:
				if r.P(50) {
					g.op(Op{O: "vbytes", A: 0})
				}
				g.verEdits(0, r.Between(1, 3))
				if r.P(50) {
					g.op(Op{O: "vbytes", A: 0})
				}
				g.op(Op{O: "setver", A: 0, B: 0})
				g.op(Op{O: "setmanifest", A: 0, N: r.N(12), D: DataSpec{B: []byte(g.verVal())}})
			case 10:
				g.op(Op{O: "newicon", A: r.N(3), N: r.Between(1, 2)})
				g.op(Op{O: "newcur", A: r.N(3), N: r.Between(1, 2)})
				if r.P(50) {
					g.op(Op{O: r.PickS("newicon", "newcur"), A: r.N(3), N: r.Between(1, 2)})
				}
				g.op(Op{O: "seticon", A: 0, B: r.N(3), R: g.res()})
				g.op(Op{O: "setcur", A: 0, B: r.N(3), R: g.res()})
			case 11:
				g.edit(r.N(2), r.Between(1, 6), false)
				g.op(Op{O: "walkin", A: r.N(2), N: 2})
			}
		}
		for a := 0; a < 3; a++ {
			g.op(Op{O: "check", A: a})
		}
	}
	// suspension points, placed in what each task does alone
	steps, where, _ := soloSteps(g.p)
	sites := make([]siteSteps, len(where))
	for i := range where {
		sites[i] = bySite(where[i])
	}
	for n := r.Pick(1, 2, 3, 5, 8, 20); n > 0; n-- {
		t := r.N(len(g.p.Tasks))
		if steps[t] < 1 {
			continue
		}
		at := 1 + int64(r.U64()%uint64(steps[t]))
		if len(sites[t]) > 0 && r.P(65) {
			// as likely at any place of the code, however often it is reached
			l := sites[t][r.N(len(sites[t]))]
			at = l[r.N(len(l))]
		}
		g.p.Sched = append(g.p.Sched, Switch{Task: t, Step: at, To: (t + 1 + r.N(len(g.p.Tasks)-1)) % len(g.p.Tasks)})
	}
}

// siteSteps lists, per site in order of appearance, steps at which it is reached.
type siteSteps [][]int64

func bySite(where []int32) (l siteSteps) {
	index := map[int32]int{}
	for i, s := range where {
		k, ok := index[s]
		if !ok {
			k = len(l)
			index[s] = k
			l = append(l, nil)
		}
		if len(l[k]) < 400 {
			l[k] = append(l[k], int64(i+1))
		} else {
			l[k][(i*7919)%400] = int64(i + 1)
		}
	}
	return
}

func (g *G) lightIn() *IOSpec {
	s := g.in()
	if s.K == "os" {
		s.K = ""
	}
	if s.Chunk > 0 && s.Chunk < 64 {
		s.Chunk = 64
	}
	if g.r.P(15) {
		s.K = ""
		s.F = []Fault{{On: g.r.PickS("read", "read", "seek"), N: 1 + g.r.N(20), K: "err"}}
	}
	return s
}

func (g *G) lightOut() *IOSpec {
	s := g.out()
	switch s.K {
	case "os", "osappend", "ospipe":
		s.K = ""
	}
	if g.r.P(15) {
		s.K = ""
		s.F = []Fault{{On: "write", N: 1 + g.r.N(30), K: g.r.PickS("err", "part")}}
	}
	return s
}

// genC11: signatures and refusals.
func genC11(g *G) {
	r := g.r
	if g.far(900) {
		return
	}
	g.exes(r.Between(1, 2), exeOpt{signed: 65, tight: 30, noRsrc: 45})
	cur := r.N(len(g.p.Exes))
	for n := r.Between(1, 4); n > 0; n-- {
		if r.P(60) {
			o := Op{O: "issigned", B: cur, In: g.in()}
			if r.P(30) {
				g.pos(o.In, 3000)
			}
			if r.P(30) {
				g.inFault(o.In)
			}
			g.op(o)
		}
		g.edit(0, r.Between(0, 3), r.P(40))
		if r.P(20) {
			g.op(Op{O: "load", A: 0, B: cur})
		}
		o := Op{O: "saveexe", A: 0, B: cur, C: 7 + n%3, Sig: r.N(3), Force: r.P(30), In: g.in(), Out: g.out(), Retry: r.P(30)}
		switch r.N(5) {
		case 0:
			g.inFault(o.In)
		case 1:
			g.outFault(o.Out)
		}
		g.op(o)
		if r.P(70) {
			cur = o.C
		}
	}
	g.op(Op{O: "issigned", B: cur})
}

// genC12: streams left anywhere.
func genC12(g *G) {
	r := g.r
	if g.far(1500) {
		return
	}
	g.exes(r.Between(1, 2), exeOpt{signed: 30, tight: 10, noRsrc: 30})
	size := len(g.p.Exes[0].Build())
	damaged := r.P(35)
	if damaged {
		d := g.damageExe(g.p.Exes[0].Build())
		g.op(Op{O: "damage", B: 0, C: 8, Dmg: d})
	}
	g.edit(0, r.Between(1, 4), false)
	for n := r.Between(1, 5); n > 0; n-- {
		o := Op{B: r.N(len(g.p.Exes)), In: g.pos(g.in(), size)}
		switch r.N(7) {
		case 0:
			o.O, o.A = "load", 1
		case 1:
			o.O, o.A, o.T = "loadtype", 1, g.typ()
		case 2, 3, 4:
			o.O = "issigned"
			if damaged && r.P(50) {
				o.B = 8
			}
		default:
			o.O, o.C, o.Sig, o.Force = "saveexe", 7, r.Pick(1, 2, 2, 0), r.P(30)
		}
		if r.P(35) {
			g.inFault(o.In)
		}
		g.op(o)
	}
}

// genC13: outputs cut short.
func genC13(g *G) {
	r := g.r
	if g.far(1500) {
		return
	}
	switch r.N(10) {
	case 0:
		g.p.Vers = append(g.p.Vers, g.ver())
		g.op(Op{O: "newver", A: 0})
		for n := r.Between(1, 4); n > 0; n-- {
			g.op(Op{O: "vcut", A: 0})
		}
		return
	case 1, 2, 3:
		cur := r.P(50)
		k := kindOf(cur)
		g.p.Icos = append(g.p.Icos, g.ico(cur, 5))
		for n := r.Between(2, 8); n > 0; n-- {
			g.op(Op{O: "load" + k, A: 0, B: 4})
			g.op(Op{O: "save" + k, B: 0, C: 7, Out: g.tear()})
			g.op(Op{O: "load" + k, A: 1, B: 7, In: g.in()})
		}
		return
	}
	e := g.exe(exeOpt{noRsrc: 35, signed: 15, tight: 4, small: true})
	if r.P(40) {
		e.Over, e.Sig, e.SigMid, e.Sym = 0, 0, 0, 0
		// resources at the end of the file are the ones that may be cut
	}
	g.p.Exes = append(g.p.Exes, e)
	for n := r.Between(2, 8); n > 0; n-- {
		if r.P(50) {
			g.op(Op{O: "newset", A: 0})
		}
		g.edit(0, r.Between(1, 4), r.P(20))
		g.op(Op{O: "saveexe", A: 0, B: 0, C: 7, Sig: r.Pick(1, 2), Force: r.P(30), Out: g.tear()})
		g.op(Op{O: "load", A: 1, B: 7, In: g.in()})
		if r.P(30) {
			g.op(Op{O: "loadtype", A: 1, B: 7, T: g.typ(), In: g.in()})
		}
		if r.P(30) {
			g.op(Op{O: "issigned", B: 7})
		}
		if r.P(30) {
			g.edit(2, 1, false)
			g.op(Op{O: "saveexe", A: 2, B: 7, C: 8, Sig: 2})
		}
	}
}

func (g *G) tear() *IOSpec {
	r := g.r
	o := &IOSpec{K: r.PickS("", "", "seeker", "from", "append")}
	f := Fault{On: "write", At: r.N(1000001), K: r.PickS("crash", "crash", "full")}
	if r.P(20) {
		f.At, f.N = 0, 1+r.N(2000)
	} else if r.P(25) {
		f.At = 1000000 - 1 - r.N(50000)
	}
	o.F = []Fault{f}
	return o
}

// genC14: object files.
func genC14(g *G) {
	r := g.r
	if newRng(g.p.Seed, 4).N(1500) == 0 {
		g.huge(true)
		return
	}
	if r.P(20) {
		for i := 0; i < 8; i++ {
			g.ts = append(g.ts, g.ident())
			g.rs = append(g.rs, g.ident())
			g.ls = append(g.ls, g.lang())
		}
	}
	for n := r.Between(1, 3); n > 0; n-- {
		g.edit(0, r.Pick(0, 1, 2, 5, 10, 30), r.P(20))
		if r.P(10) {
			g.op(Op{O: "newicon", A: 0, N: 2})
			g.op(Op{O: "seticon", A: 0, B: 0, R: g.res()})
		}
		o := Op{O: "saveobj", A: 0, Arch: g.arch(12), Out: g.out()}
		if r.P(30) {
			g.outFault(o.Out)
			o.Retry = true
		}
		g.op(o)
	}
	if r.N(400) == 0 { // very many
		g.op(Op{O: "fillset", A: 1, N: r.Pick(40000, 65533, 65534, 65535, 65536, 66000)})
		o := Op{O: "saveobj", A: 1, Arch: g.arch(0)}
		if r.P(40) {
			o.Out = g.outFault(&IOSpec{})
			o.Retry = r.P(50)
		}
		g.op(o)
	}
}

// genC15: icon and cursor files.
func genC15(g *G) {
	r := g.r
	g.p.Icos = []IcoSpec{g.ico(false, 6), g.ico(true, 5)}
	if r.P(25) {
		g.exes(1, exeOpt{noRsrc: 40, plainly: true, small: true})
	}
	a := [2]int{4, 5}
	for n := r.Between(1, 4); n > 0; n-- {
		cur := r.P(50)
		k, f := kindOf(cur), 0
		if cur {
			f = 1
		}
		if r.P(12) {
			g.op(Op{O: map[bool]string{false: "newicon", true: "newcur"}[cur], A: 0, N: r.Between(1, 4)})
			if r.P(30) {
				g.op(Op{O: map[bool]string{false: "newicon", true: "newcur"}[cur], A: 1, N: r.Between(1, 4)})
			}
		} else {
			o := Op{O: "load" + k, A: 0, B: a[f], In: g.in()}
			if r.P(20) {
				g.inFault(o.In)
				o.Retry = true
			}
			g.op(o)
		}
		if r.P(50) {
			s := map[bool]string{false: "icon", true: "cur"}[cur]
			id := g.res()
			g.op(Op{O: "set" + s, A: 0, B: 0, R: id})
			if len(g.p.Exes) > 0 && r.P(40) {
				g.op(Op{O: "saveexe", A: 0, B: 0, C: 8, Sig: 2})
				g.op(Op{O: "load", A: 0, B: 8})
			}
			g.op(Op{O: "get" + s, A: 0, B: 0, R: id})
		}
		o := Op{O: "save" + k, B: 0, C: 7 + 4*f, Out: g.out(), Retry: true}
		if r.P(25) {
			g.outFault(o.Out)
		}
		g.op(o)
		if r.P(80) {
			a[f] = o.C
		}
		g.op(Op{O: "load" + k, A: 1, B: o.C, In: g.in()})
	}
}

// genC16: generations of version information.
func genC16(g *G) {
	r := g.r
	g.p.Vers = []VerSpec{g.ver(), g.ver()}
	g.exes(1, exeOpt{noRsrc: 40, plainly: true, small: true})
	g.op(Op{O: "newver", A: 0})
	cur := 0
	for n := r.Between(1, 4); n > 0; n-- {
		if r.P(50) {
			g.verEdits(0, r.Between(1, 4))
		}
		if r.P(40) {
			g.op(Op{O: "vbytes", A: 0, N: r.N(2)})
		}
		g.op(Op{O: "setver", A: 0, B: 0})
		if r.P(75) {
			o := Op{O: "saveexe", A: 0, B: cur, C: 7 + n%2, Sig: 2, Retry: true}
			if r.P(40) {
				o.In, o.Out = g.in(), g.out()
				if r.P(40) {
					g.inFault(o.In)
				}
			}
			g.op(o)
			if r.P(80) {
				cur = o.C
			}
			g.op(Op{O: r.PickS("load", "load", "loadtype"), A: 0, B: cur, T: nid(rtVersion), In: g.in()})
		}
		g.op(Op{O: "getver", A: 0, B: 0})
		if r.P(15) {
			g.op(Op{O: "newver", A: 0, N: 1})
		}
	}
}

// genC17: one type only.
func genC17(g *G) {
	r := g.r
	e := g.exe(exeOpt{noRsrc: 8, signed: 10})
	if e.hasRsrc() && r.P(70) {
		e.Res = append(e.Res, g.iconItems(r.Between(1, 3))...)
	}
	g.p.Exes = []ExeSpec{e}
	src := 0
	if r.P(40) {
		g.op(Op{O: "load", A: 0, B: 0})
		g.edit(0, r.Between(1, 5), false)
		g.op(Op{O: "saveexe", A: 0, B: 0, C: 7, Sig: 2})
		src = 7
	}
	for n := r.Between(2, 6); n > 0; n-- {
		o := Op{O: "loadtype", A: 1, B: src, T: g.typ(), In: g.in(), Retry: r.P(40)}
		switch r.N(8) {
		case 0, 1, 2:
			o.T = nid(r.Pick(rtGroupIcon, rtGroupCursor))
		case 3:
			o.T = nid(r.Pick(rtIcon, rtCursor, rtVersion, 13, 15))
		case 4:
			if r.P(40) {
				o.T = Ident{}
			}
		}
		if r.P(35) {
			g.inFault(o.In)
		}
		if r.P(15) {
			g.pos(o.In, 2000)
		}
		g.op(o)
		if r.P(60) {
			k := "icon"
			if o.T == nid(rtGroupCursor) {
				k = "cur"
			}
			for i := 0; i < len(g.rs) && i < 3; i++ {
				g.op(Op{O: "get" + k, A: 1, B: 0, R: g.rs[i]})
			}
		}
		if r.P(20) {
			g.op(Op{O: "set" + r.PickS("icon", "cur"), A: 1, B: 0, R: g.res()})
			g.op(Op{O: "check", A: 1})
		}
	}
}

// genC18: failures followed by another attempt.
func genC18(g *G) {
	r := g.r
	if g.far(1500) {
		return
	}
	g.exes(1, exeOpt{signed: 10, tight: 5, noRsrc: 35})
	g.p.Icos = []IcoSpec{g.ico(false, 4), g.ico(true, 4)}
	if r.P(60) {
		g.op(Op{O: "loadico", A: 0, B: 4})
		g.op(Op{O: "loadcur", A: 0, B: 5})
	}
	g.edit(0, r.Between(1, 6), r.P(40))
	for n := r.Between(1, 5); n > 0; n-- {
		o := Op{Retry: true, Seed: g.seed(), Sig: r.Pick(1, 2, 2), Force: r.P(40), C: 7 + n%3, Arch: g.arch(0)}
		o.O = r.PickS("saveexe", "saveexe", "saveexe", "saveobj", "saveico", "savecur", "load", "loadtype", "issigned", "loadico", "loadcur")
		o.In = g.in()
		switch o.O {
		case "loadico":
			o.B = 4
		case "loadcur":
			o.B = 5
		case "loadtype":
			o.T = g.typ()
		}
		switch o.O {
		case "saveexe":
			o.Out = g.out()
			if r.P(50) {
				g.inFault(o.In)
			} else {
				g.outFault(o.Out)
			}
		case "saveobj", "saveico", "savecur":
			o.In, o.Out = nil, g.outFault(g.out())
		default:
			o.A = 1
			g.inFault(o.In)
		}
		g.op(o)
		if r.P(40) {
			g.edit(0, 1, false)
		}
		if r.P(30) {
			g.op(Op{O: "seticon", A: 0, B: 0, R: g.res()})
		}
		if r.P(40) {
			g.op(Op{O: "check", A: 0})
		}
	}
}
