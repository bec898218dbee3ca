package main

// Minimisation of a failing plan: everything that can be dropped is dropped,
// what cannot is made smaller, as long as the same property stays violated.

import (
	"strings"
	"time"
)

type shrinker struct {
	prop  string
	class string
	end   time.Time
	tries int
	best  *Plan
	viol  *Violation
}

// class abstracts a violation from its numbers.
func vclass(v *Violation) string {
	var b strings.Builder
	for _, c := range v.What {
		if c >= '0' && c <= '9' {
			continue
		}
		if c == ':' || c == '(' || b.Len() > 24 {
			break
		}
		b.WriteRune(c)
	}
	return b.String()
}

func runPlan(p *Plan, trace func(string)) (v *Violation, log uint64) {
	w := newWorld(p, newCoverage())
	w.trace = trace
	v = w.Run()
	return v, w.log
}

func (s *shrinker) try(p *Plan) bool {
	if time.Now().After(s.end) {
		return false
	}
	s.tries++
	freshen()
	q := p.clone()
	v, _ := runPlan(q, nil)
	if v == nil || !v.of(s.prop) || vclass(v) != s.class {
		return false
	}
	s.best, s.viol = p, v
	return true
}

// cuts tries to remove parts of a list of n elements.
func (s *shrinker) cuts(n func() int, cut func(p *Plan, i, k int)) bool {
	any := false
	for k := n(); k >= 1; k /= 2 {
		for i := n() - k; i >= 0; {
			p := s.best.clone()
			cut(p, i, k)
			if s.try(p) {
				any = true
				if i > n()-k {
					i = n() - k
				}
			} else {
				i -= k
			}
			if time.Now().After(s.end) {
				return any
			}
		}
	}
	return any
}

func shrink(p *Plan, v *Violation, limit time.Duration) (*Plan, *Violation, int) {
	s := &shrinker{prop: p.Prop, class: vclass(v), end: time.Now().Add(limit), best: p, viol: v}
	for round := 0; round < 6; round++ {
		any := false
		if s.cuts(func() int { return len(s.best.Sched) }, func(p *Plan, i, k int) { p.Sched = append(p.Sched[:i], p.Sched[i+k:]...) }) {
			any = true
		}
		for t := range s.best.Tasks {
			t := t
			if s.cuts(func() int { return len(s.best.Tasks[t].Ops) }, func(p *Plan, i, k int) {
				p.Tasks[t].Ops = append(p.Tasks[t].Ops[:i], p.Tasks[t].Ops[i+k:]...)
			}) {
				any = true
			}
			if s.cuts(func() int { return len(s.best.Tasks[t].Pre) }, func(p *Plan, i, k int) {
				p.Tasks[t].Pre = append(p.Tasks[t].Pre[:i], p.Tasks[t].Pre[i+k:]...)
			}) {
				any = true
			}
			for i := range s.best.Tasks[t].Ops {
				if s.op(func(p *Plan) *Op { return &p.Tasks[t].Ops[i] }) {
					any = true
				}
			}
			for i := range s.best.Tasks[t].Pre {
				if s.op(func(p *Plan) *Op { return &p.Tasks[t].Pre[i] }) {
					any = true
				}
			}
		}
		for e := range s.best.Exes {
			if s.exe(e) {
				any = true
			}
		}
		for e := range s.best.Icos {
			e := e
			if s.cuts(func() int { return len(s.best.Icos[e].Im) }, func(p *Plan, i, k int) {
				p.Icos[e].Im = append(p.Icos[e].Im[:i], p.Icos[e].Im[i+k:]...)
			}) {
				any = true
			}
		}
		for e := range s.best.Vers {
			e := e
			if s.cuts(func() int { return len(s.best.Vers[e].S) }, func(p *Plan, i, k int) {
				p.Vers[e].S = append(p.Vers[e].S[:i], p.Vers[e].S[i+k:]...)
			}) {
				any = true
			}
		}
		if !any || time.Now().After(s.end) {
			break
		}
	}
	return s.best, s.viol, s.tries
}

// edits tries each change on its own.
func (s *shrinker) edits(l ...func(p *Plan) bool) bool {
	any := false
	for _, f := range l {
		p := s.best.clone()
		if f(p) && s.try(p) {
			any = true
		}
	}
	return any
}

func (s *shrinker) op(at func(p *Plan) *Op) bool {
	any := s.edits(
		func(p *Plan) bool { o := at(p); r := o.In != nil; o.In = nil; return r },
		func(p *Plan) bool { o := at(p); r := o.Out != nil; o.Out = nil; return r },
		func(p *Plan) bool { o := at(p); r := o.Force; o.Force = false; return r },
		func(p *Plan) bool { o := at(p); r := o.Retry; o.Retry = false; return r },
		func(p *Plan) bool { o := at(p); r := o.HasL; o.HasL = false; return r },
		func(p *Plan) bool { o := at(p); r := o.L != 0; o.L = 0; return r },
		func(p *Plan) bool { o := at(p); r := o.O == "fillset" && o.N > 4; o.N /= 2; return r },
		func(p *Plan) bool { o := at(p); r := o.O == "fillset" && o.N > 4; o.N -= o.N / 4; return r },
		func(p *Plan) bool { o := at(p); r := len(o.R.N) > 40; o.R.N = "A"; return r },
		func(p *Plan) bool { o := at(p); r := len(o.T.N) > 40; o.T.N = "A"; return r },
		func(p *Plan) bool { o := at(p); r := o.D.N > 16; o.D.N = 1; return r },
		func(p *Plan) bool { o := at(p); r := o.D.N > 16; o.D.N /= 2; return r },
	)
	for _, get := range []func(p *Plan) *IOSpec{
		func(p *Plan) *IOSpec { return at(p).In },
		func(p *Plan) *IOSpec { return at(p).Out },
	} {
		get := get
		if get(s.best) == nil {
			continue
		}
		if s.cuts(func() int {
			if x := get(s.best); x != nil {
				return len(x.F)
			}
			return 0
		}, func(p *Plan, i, k int) {
			x := get(p)
			x.F = append(x.F[:i], x.F[i+k:]...)
		}) {
			any = true
		}
		if s.edits(
			func(p *Plan) bool { x := get(p); r := x.K != ""; x.K = ""; return r },
			func(p *Plan) bool { x := get(p); r := x.Chunk != 0; x.Chunk, x.RndSeed = 0, 0; return r },
			func(p *Plan) bool { x := get(p); r := x.RndSeed != 0; x.RndSeed = 0; return r },
			func(p *Plan) bool { x := get(p); r := x.Zero != 0; x.Zero = 0; return r },
			func(p *Plan) bool { x := get(p); r := x.EOFData; x.EOFData = false; return r },
			func(p *Plan) bool { x := get(p); r := x.Scrib; x.Scrib = false; return r },
			func(p *Plan) bool { x := get(p); r := x.Pos != 0; x.Pos = 0; return r },
			func(p *Plan) bool { x := get(p); r := x.Stale != 0; x.Stale, x.Start = 0, 0; return r },
			func(p *Plan) bool {
				r := false
				for i := range get(p).F {
					r = r || get(p).F[i].Sticky
					get(p).F[i].Sticky = false
				}
				return r
			},
		) {
			any = true
		}
	}
	if s.cuts(func() int { return len(at(s.best).Dmg) }, func(p *Plan, i, k int) {
		o := at(p)
		o.Dmg = append(o.Dmg[:i], o.Dmg[i+k:]...)
	}) {
		any = true
	}
	return any
}

func (s *shrinker) exe(e int) bool {
	any := s.cuts(func() int { return len(s.best.Exes[e].Res) }, func(p *Plan, i, k int) {
		x := &p.Exes[e]
		x.Res = append(x.Res[:i], x.Res[i+k:]...)
	})
	if s.cuts(func() int { return len(s.best.Exes[e].Dirs) }, func(p *Plan, i, k int) {
		x := &p.Exes[e]
		x.Dirs = append(x.Dirs[:i], x.Dirs[i+k:]...)
	}) {
		any = true
	}
	for i := len(s.best.Exes[e].Secs) - 1; i >= 0; i-- {
		if len(s.best.Exes[e].Secs) < 2 {
			break
		}
		p := s.best.clone()
		x := &p.Exes[e]
		x.Secs = append(x.Secs[:i], x.Secs[i+1:]...)
		if x.Secs[0].K == "bss" || x.Secs[0].K == "bssraw" || x.Secs[0].K == "empty" {
			continue // keep data in the file
		}
		var ds []DirSpec
		for _, d := range x.Dirs {
			if d.Sec < i {
				ds = append(ds, d)
			} else if d.Sec > i {
				d.Sec--
				ds = append(ds, d)
			}
		}
		x.Dirs = ds
		if s.try(p) {
			any = true
		}
	}
	ex := func(f func(x *ExeSpec) bool) func(p *Plan) bool {
		return func(p *Plan) bool { return f(&p.Exes[e]) }
	}
	if s.edits(
		ex(func(x *ExeSpec) bool { r := x.Over != 0; x.Over = 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.Sig != 0; x.Sig, x.SigMid = 0, 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.SigMid != 0; x.SigMid = 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.Sym != 0; x.Sym = 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.Sum != 0; x.Sum = 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.Tight != 0; x.Tight, x.Room = 0, 40; return r }),
		ex(func(x *ExeSpec) bool { r := x.Spare != 0; x.Spare = 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.Tab != 0; x.Tab = 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.Fil != 0; x.Fil = 0; return r }),
		ex(func(x *ExeSpec) bool { r := x.NDirs != 16; x.NDirs = 16; return r }),
		ex(func(x *ExeSpec) bool { r := x.Stub > 0x40; x.Stub = 0x40; return r }),
		ex(func(x *ExeSpec) bool { r := x.DLL; x.DLL = false; return r }),
		ex(func(x *ExeSpec) bool { r := x.Lay != RsrcLayout{}; x.Lay = RsrcLayout{}; return r }),
		ex(func(x *ExeSpec) bool { r := x.FA != 0x200; x.FA, x.SA = 0x200, 0x1000; return r }),
	) {
		any = true
	}
	for i := range s.best.Exes[e].Secs {
		i := i
		if s.edits(
			ex(func(x *ExeSpec) bool { r := x.Secs[i].Gap != 0; x.Secs[i].Gap = 0; return r }),
			ex(func(x *ExeSpec) bool { r := x.Secs[i].Virt != 0; x.Secs[i].Virt = 0; return r }),
			ex(func(x *ExeSpec) bool { r := x.Secs[i].N > 1; x.Secs[i].N = 1; return r }),
		) {
			any = true
		}
	}
	return any
}
