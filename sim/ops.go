package main

// The operations of the simulated tasks, each with its oracle.

import (
	"bytes"
	"fmt"
	"io"

	"github.com/tc-hib/winres"
)

func (t *Task) exec(op *Op) {
	switch op.O {
	case "newset":
		t.sets[op.A%nReg] = nil
		t.set(op.A)
	case "set", "del":
		t.opSet(op)
	case "check":
		s := t.set(op.A)
		t.checkSet(s, "C08", op.Seed, true)
	case "count":
		s := t.set(op.A)
		if n := s.rs.Count(); n != len(s.m.m) {
			t.fail("C08", "count is %d, expected %d", n, len(s.m.m))
		}
	case "get":
		s := t.set(op.A)
		d := s.rs.Get(op.T.W(), op.R.W(), op.L)
		t.note("get %s", brief(d))
		w, ok := s.m.m[Key{op.T, op.R, op.L}]
		if !ok && d != nil || ok && (d == nil || !bytes.Equal(d, w)) {
			t.fail("C08", "get %v returned %s (nil: %v), expected %s (stored: %v)", Key{op.T, op.R, op.L}, brief(d), d == nil, brief(w), ok)
		}
		t.hold(d, "Get")
	case "walkstop":
		t.opWalkStop(op)
	case "walkin":
		t.opWalkIn(op)
	case "walktype":
		s := t.set(op.A)
		if d := compareType(s.rs, s.m, op.T); d != "" {
			t.fail("C08 C07", "%s", d)
		}
	case "saveexe":
		t.opSaveExe(op)
	case "load", "loadtype":
		t.opLoad(op)
	case "issigned":
		t.opIsSigned(op)
	case "saveobj":
		t.opSaveObj(op)
	case "twin":
		t.opTwin(op)
	case "damage":
		t.opDamage(op)
	case "gdamage":
		t.opGroupDamage(op)
	case "fillset":
		t.opFillSet(op)
	case "thin":
		s := t.set(op.A)
		for i, k := range s.m.keys() {
			if i%op.N == op.N-1 {
				if err := s.rs.Set(k.T.W(), k.R.W(), k.L, nil); err != nil {
					t.fail("C08", "deleting %v: %v", k, err)
				}
				delete(s.m.m, k)
			}
		}
	case "crash":
		t.crash()
	case "decoy":
		t.opDecoy(op)
	case "probe":
		t.opProbe(op)
	default:
		if !t.execImg(op) && !t.execVer(op) {
			infra("unknown operation %q", op.O)
		}
	}
}

// checkSet compares everything a set tells with its model.
func (t *Task) checkSet(s *SetReg, props string, seed uint64, full bool) {
	if full {
		if d := compareSet(s.rs, s.m, newRng(seed, 3)); d != "" {
			t.fail(props, "%s", d)
		}
		t.note("set %x", s.m.hash())
		return
	}
	got, bad := realSet(s.rs)
	if bad != "" {
		t.fail(props+" C07", "%s", bad)
	}
	if d := s.m.diff(got, "model", "set"); d != "" {
		t.fail(props, "%s", d)
	}
}

func (t *Task) opSet(op *Op) {
	s := t.set(op.A)
	d := op.D.Bytes()
	if op.O == "del" {
		d = nil
	}
	k := Key{op.T, op.R, op.L}
	if d != nil {
		// The caller's bytes are part of a larger buffer of his.
		d = pad(d, int(op.D.S%5)*3)
		t.hold(d[:cap(d)], "Set")
	}
	err := s.rs.Set(op.T.W(), op.R.W(), op.L, d)
	t.note("set %v: %s", k, errStr(err))
	valid := op.T.valid() && op.R.valid()
	if tooLong(op.T) || tooLong(op.R) {
		// Names the format cannot hold may be refused or not
		if err == nil {
			s.m.m[k] = append([]byte{}, d...)
			if d == nil {
				delete(s.m.m, k)
			}
		}
		return
	}
	if valid != (err == nil) {
		t.fail("C08", "Set %v: valid identifiers: %v, got %v", k, valid, errStr(err))
	}
	if !valid {
		if op.Seed%2 == 0 {
			t.checkSet(s, "C08", op.Seed, false)
		}
		return
	}
	if d == nil {
		delete(s.m.m, k)
	} else {
		s.m.m[k] = append([]byte{}, d...)
		s.used(k)
	}
}

// pad returns d followed by n bytes that are in its capacity only.
func pad(d []byte, n int) []byte {
	b := append(make([]byte, 0, len(d)+n), d...)
	for i := 0; i < n; i++ {
		b = append(b, 0xA5)
	}
	return b[:len(d)]
}

// opFillSet adds very many resources.
func (t *Task) opFillSet(op *Op) {
	s := t.set(op.A)
	if op.C == 0 {
		s = &SetReg{rs: &winres.ResourceSet{}, m: newMSet()}
		t.sets[op.A%nReg] = s
	}
	d := op.D.Bytes()
	t.w.size += int64(op.N * (len(d) + 50) / 4)
	for j := 0; j < op.N; j++ {
		// in no particular order, the multiplier being prime
		i := int(uint64(j) * 7919 % uint64(op.N))
		if op.N%7919 == 0 {
			i = j
		}
		k := Key{op.T, op.R, op.L}
		switch op.C {
		case 0:
			k = Key{nid(10 + i/65535), nid(1 + i%65535), 0}
		case 1:
			k.L = uint16(i)
		case 2:
			k.R = nid(1 + i)
		case 3:
			k.T = nid(30 + i)
		case 4:
			k.R = nname(fmt.Sprintf("N%d", i))
		case 5:
			k.T = nname(fmt.Sprintf("T%d", i))
		}
		b := append(append(make([]byte, 0, len(d)+2), d...), byte(i), byte(i>>8))
		if err := s.rs.Set(k.T.W(), k.R.W(), k.L, b); err != nil {
			t.fail("C08", "Set %v: %v", k, err)
		}
		s.m.m[k] = append([]byte{}, b...)
		s.used(k)
	}
}

func tooLong(i Ident) bool { return len(i.N) > 0xFFFF && utf16len(i.N) > 0xFFFF }

func (t *Task) opWalkStop(op *Op) {
	s := t.set(op.A)
	ks := s.m.keys()
	if op.HasL {
		var tk []Key
		for _, k := range ks {
			if k.T == op.T {
				tk = append(tk, k)
			}
		}
		ks = tk
	}
	want := op.N
	if want > len(ks) {
		want = len(ks)
	}
	n := 0
	see := func(k Key) bool {
		if n >= len(ks) {
			t.fail("C08", "walk shows %v beyond the end", k)
		}
		if k != ks[n] {
			t.fail("C08 C07", "walk shows %v, expected %v", k, ks[n])
		}
		n++
		return n < op.N
	}
	if op.HasL {
		s.rs.WalkType(op.T.W(), func(r winres.Identifier, l uint16, data []byte) bool {
			return see(Key{op.T, fromW(r), l})
		})
	} else {
		s.rs.Walk(func(ty, r winres.Identifier, l uint16, data []byte) bool {
			return see(Key{fromW(ty), fromW(r), l})
		})
	}
	if want == 0 && op.N <= 0 {
		want = min(1, len(ks)) // the first one is shown before the walk can be stopped
	}
	if n != want {
		t.fail("C08", "walk was to be stopped after %d of %d resources, it showed %d", op.N, len(ks), n)
	}
	t.note("walked %d", n)
}

// opWalkIn queries and saves the set from inside a walk.
func (t *Task) opWalkIn(op *Op) {
	s := t.set(op.A)
	ks := s.m.keys()
	n := 0
	inner := func() {
		switch op.Seed % 6 {
		case 0:
			if c := s.rs.Count(); c != len(ks) {
				t.fail("C08", "count inside a walk is %d, expected %d", c, len(ks))
			}
		case 1:
			for _, k := range ks {
				if d := s.rs.Get(k.T.W(), k.R.W(), k.L); !bytes.Equal(d, s.m.m[k]) || d == nil {
					t.fail("C08", "get %v inside a walk returned %s", k, brief(d))
				}
			}
		case 2:
			got, bad := realSet(s.rs)
			if bad == "" {
				bad = s.m.diff(got, "model", "nested walk")
			}
			if bad != "" {
				t.fail("C08", "nested walk: %s", bad)
			}
		case 3:
			b := &bytes.Buffer{}
			if err := s.rs.WriteObject(b, winres.ArchAMD64); err != nil {
				t.fail("C08", "saving inside a walk: %v", err)
			}
		case 4:
			_ = s.rs.WriteObject(&wstream{t: t, sp: &IOSpec{F: []Fault{{On: "write", K: "full", N: 100}}}, fired: map[string]int{}}, winres.ArchI386)
		case 5:
			seen := map[Ident]bool{}
			for i, k := range ks {
				if i > 20 && i < len(ks)-20 {
					continue
				}
				if !seen[k.T] {
					if d := compareType(s.rs, s.m, k.T); d != "" {
						t.fail("C08", "nested %s", d)
					}
				}
				seen[k.T] = true
				_, _ = s.rs.GetIcon(k.R.W())
				_, _ = s.rs.GetCursor(k.R.W())
			}
		}
	}
	s.rs.Walk(func(ty, r winres.Identifier, l uint16, data []byte) bool {
		k := Key{fromW(ty), fromW(r), l}
		if n >= len(ks) || k != ks[n] || !bytes.Equal(data, s.m.m[k]) {
			t.fail("C08", "walk shows %v at %d of %d while the set is being queried", k, n, len(ks))
		}
		n++
		if n == 1 || n == op.N {
			inner()
		}
		return true
	})
	if n != len(ks) {
		t.fail("C08", "walk shows %d of %d resources while the set is being queried", n, len(ks))
	}
	t.checkSet(s, "C08", op.Seed, false)
}

// ---------------------------------------------------------------- streams

type ioRun struct {
	err     error
	crashed bool
	out     sinkResult
	rst     *rstream
	wst     *wstream
	finIn   int64
	inF     bool // a source fault happened
	outF    bool // a destination fault happened
	src     io.ReadSeeker
	dst     io.Writer
	rel     func() int64
}

var plainIO = &IOSpec{}

func specOf(s *IOSpec) *IOSpec {
	if s == nil {
		return plainIO
	}
	return s
}

func (s *IOSpec) calm() *IOSpec {
	c := *s
	c.F = nil
	return &c
}

func firedFault(m map[string]int) bool {
	for k := range m {
		switch k {
		case "short-read", "empty-read", "data+eof", "wseek-refused":
		default:
			return true
		}
	}
	return false
}

func alwaysFails(s *IOSpec) bool {
	switch s.K {
	case "osclosed", "oswronly", "osrdonly", "devfull":
		return true
	}
	return false
}

// perform runs f on streams. src or out may be absent.
func (t *Task) perform(in, out *IOSpec, data []byte, pin, pout *ioProfile, f func(r io.ReadSeeker, w io.Writer) error) (x ioRun) {
	var (
		r    io.ReadSeeker
		w    io.Writer
		rel  func() int64
		relO func() sinkResult
	)
	if in != nil {
		r, x.rst, rel = t.source(in, data, pin)
		x.src = r
	}
	if out != nil {
		w, x.wst, relO = t.sink(out, pout)
		x.dst = w
	}
	x.err, x.crashed = t.try(func() error { return f(r, w) })
	if in != nil {
		x.finIn = rel()
		x.inF = alwaysFails(in) || x.rst != nil && firedFault(x.rst.fired)
	}
	if out != nil {
		x.out = relO()
		x.outF = alwaysFails(out) || x.wst != nil && firedFault(x.wst.fired)
	}
	return
}

// profile tells which calls f makes when nothing fails.
func (t *Task) profile(in, out *IOSpec, data []byte, f func(r io.ReadSeeker, w io.Writer) error) (pin, pout *ioProfile) {
	need := in != nil && len(in.F) > 0 || out != nil && len(out.F) > 0
	if !need || t.w.plan.Light {
		return nil, nil
	}
	var ci, co *IOSpec
	if in != nil {
		ci = in.calm()
	}
	if out != nil {
		co = out.calm()
	}
	t.quietly(17, func() {
		x := t.perform(ci, co, data, nil, nil, f)
		if x.rst != nil {
			pin = &x.rst.st
		}
		if x.wst != nil {
			pout = &x.wst.st
		}
	})
	return
}

// ioTags lists the properties that promise the result despite such streams.
func ioTags(in, out *IOSpec, x *ioRun) string {
	s := ""
	if in != nil {
		if x.inF || in.Chunk > 0 || in.Zero > 0 || in.EOFData || in.Scrib {
			s += " C05"
		}
		if in.Pos != 0 {
			s += " C12"
		}
	}
	if out != nil {
		if x.outF || out.K != "" {
			s += " C04"
		}
	}
	return s
}

func (t *Task) ioState(op *Op, kind string, x *ioRun) {
	in, out := specOf(op.In), specOf(op.Out)
	fk := ""
	for _, s := range []*IOSpec{in, out} {
		for _, f := range s.F {
			fk += fmt.Sprintf("%s/%s/%d/%v ", f.On, f.K, (f.At+99999)/100000, f.Sticky)
		}
	}
	t.state("%s %s %s ch%d z%d %v %v pos%v %s err=%v crash=%v in=%v out=%v", op.O, kind, in.K, in.Chunk/64, in.Zero, in.EOFData, in.Scrib, in.Pos != 0, out.K+fk, x.err, x.crashed, x.inF, x.outF)
}

// ---------------------------------------------------------------- executables

type problem struct{ props, what string }

func joinProblems(ps []problem) (string, string) {
	a, b := "", ""
	for _, p := range ps {
		a += " " + p.props
		if b != "" {
			b += "; "
		}
		b += p.what
	}
	return a, b
}

func exeOpts(op *Op) (force bool, sig int) { return op.Force, op.Sig % 3 }

func saveTo(rs *winres.ResourceSet, op *Op, w io.Writer, r io.ReadSeeker) error {
	force, sig := exeOpts(op)
	switch {
	case force && sig == 1:
		return rs.WriteToEXE(w, r, winres.ForceCheckSum(), winres.WithAuthenticode(winres.RemoveSignature))
	case force && sig == 2:
		return rs.WriteToEXE(w, r, winres.WithAuthenticode(winres.IgnoreSignature), winres.ForceCheckSum())
	case sig == 1:
		return rs.WriteToEXE(w, r, winres.WithAuthenticode(winres.RemoveSignature))
	case sig == 2:
		return rs.WriteToEXE(w, r, winres.WithAuthenticode(winres.IgnoreSignature))
	case force:
		return rs.WriteToEXE(w, r, winres.ForceCheckSum())
	}
	return rs.WriteToEXE(w, r)
}

// promised tells whether saving m into an executable must succeed or must be
// refused; neither is the case when it depends on how the section is laid out.
func promised(p *PE, sig int) (must, mustNot bool, why string) {
	if p.signed() && sig == 0 {
		return false, true, "signed"
	}
	none := p.first < p.hdrEnd+40 || len(p.secs) == 0xFFFF
	for i := range p.secs {
		if int(p.secs[i].VA) < p.hdrEnd+40 {
			none = true
		}
	}
	// in between, there is room in the file but the headers have to be declared longer
	room := !none && int(p.sizeHdr) >= p.hdrEnd+40
	sr := p.rsrcSec()
	if sr < 0 {
		return room, none, "no room"
	}
	if room {
		return true, false, ""
	}
	end := rnd(p.secs[sr].VA+p.secs[sr].mem(), p.SA)
	for i := range p.secs {
		s := &p.secs[i]
		if i != sr && s.VA >= end && (p.dir(dirReloc)[0] == 0 || s.VA != p.dir(dirReloc)[0] || s.VA != end) {
			return false, false, "no room if the section grows"
		}
	}
	return true, false, ""
}

// judgePatched lists what is wrong with out, made from src by saving m.
func (t *Task) judgePatched(src *PE, out []byte, m *MSet, op *Op) (ps []problem) {
	force, sig := exeOpts(op)
	bad := func(props, f string, a ...interface{}) {
		ps = append(ps, problem{props, fmt.Sprintf(f, a...)})
	}
	dst, err := parsePE(out)
	if err != nil {
		bad("C01 C02", "the patched file is not an executable: %v", err)
		return
	}
	remove := sig == 1
	// nothing below may look beyond the file
	for i := range dst.secs {
		s := &dst.secs[i]
		if s.inFile() && int64(s.Ptr)+int64(s.Raw) > int64(len(out)) {
			bad("C01 C02", "section %d (%#x+%#x) is beyond the end of the patched file (%#x)", i, s.Ptr, s.Raw, len(out))
			return
		}
	}
	if d := comparePatched(src, dst, remove); d != "" {
		pr := "C02"
		if src.signed() {
			pr += " C11"
		}
		bad(pr, "%s", d)
	}
	if d := checkSignature(src, dst, remove); d != "" {
		bad("C11 C02", "%s", d)
	}
	if src.checksum() != 0 || force {
		if w := peSum(out, dst.sumOff); dst.checksum() != w {
			bad("C03", "the checksum is %#x, the file's is %#x", dst.checksum(), w)
		}
	} else if dst.checksum() != 0 {
		bad("C03", "the original has no checksum, the result has %#x", dst.checksum())
	}
	if p, err := dst.rsrcModel(); err != nil {
		bad("C01 C02", "resources of the patched file: %v", err)
	} else if d := m.diff(p.set, "what was saved", "the file"); d != "" {
		bad("C01", "%s", d)
	}
	t.quietly(op.Seed, func() {
		rs, err := winres.LoadFromEXE(bytes.NewReader(out))
		if err != nil {
			bad("C01", "loading the patched file: %v", err)
		} else if got, d := realSet(rs); d != "" {
			bad("C01", "loaded set: %s", d)
		} else if d := m.diff(got, "what was saved", "what was loaded"); d != "" {
			bad("C01", "%s", d)
		}
		sg, err := winres.IsSignedEXE(bytes.NewReader(out))
		if err != nil || sg != (src.signed() && !remove) {
			bad("C11", "the patched file is said to be signed: %v, %v", sg, errStr(err))
		}
	})
	return
}

type refResult struct {
	out []byte
	err error
}

func (t *Task) refSave(m *MSet, data []byte, op *Op) (x refResult) {
	t.quietly(op.Seed+1, func() {
		rs, err := m.build(newRng(op.Seed, 21))
		if err != nil {
			t.fail("C08", "rebuilding the set: %v", err)
		}
		b := &bytes.Buffer{}
		x.err = saveTo(rs, op, b, bytes.NewReader(data))
		x.out = b.Bytes()
	})
	return
}

func (t *Task) opSaveExe(op *Op) {
	s, f := t.set(op.A), t.file(op.B, "exe")
	if f == nil {
		return
	}
	in, out := specOf(op.In), specOf(op.Out)
	data := f.data
	if f.state == "damaged" {
		t.saveDamaged(op, s, f)
		return
	}
	if f.state == "torn" {
		// a torn file as a source: only safety is promised
		x := t.perform(in.calm(), out.calm(), data, nil, nil, func(r io.ReadSeeker, w io.Writer) error { return saveTo(s.rs, op, w, r) })
		t.note("patch torn: %s", errStr(x.err))
		return
	}
	if t.w.plan.Light {
		x := t.perform(in, out, data, nil, nil, func(r io.ReadSeeker, w io.Writer) error { return saveTo(s.rs, op, w, r) })
		t.note("saveexe %s crashed=%v %d bytes %x pos %d", errStr(x.err), x.crashed, len(x.out.got), hashBytes(x.out.got), x.finIn)
		t.files[op.C%len(t.files)] = &File{kind: "exe", data: x.out.got, state: map[bool]string{true: "ok", false: tornState(out)}[x.err == nil && !x.crashed], m: s.m.clone()}
		if x.crashed {
			t.crash()
		}
		return
	}
	src, err := parsePE(data)
	if err != nil {
		infra("model executable: %v", err)
	}
	_, sig := exeOpts(op)
	ref := t.refSave(s.m, data, op)
	must, mustNot, why := promised(src, sig)
	t.state("exe %d rsrc@%d/%d signed=%v sig=%d must=%v %s n=%d ok=%v", le.Uint16(src.oh), src.rsrcSec(), len(src.secs), src.signed(), sig, must, why, min(len(s.m.m), 8), ref.err == nil)
	if must && ref.err != nil {
		props := "C01"
		if !src.signed() && ref.err == winres.ErrSignedPE {
			props += " C11"
		}
		t.fail(props, "saving into a valid executable with room fails: %v", ref.err)
	}
	if mustNot && ref.err == nil {
		t.fail("C11", "saving succeeds although the executable is %s", why)
	}
	if why == "signed" && ref.err != winres.ErrSignedPE {
		t.fail("C11", "saving into a signed executable: %v", ref.err)
	}
	if ref.err != nil && len(ref.out) > 0 {
		t.fail("C11", "a refused save (%v) wrote %d bytes", ref.err, len(ref.out))
	}
	if ref.err == nil {
		if ps := t.judgePatched(src, ref.out, s.m, op); len(ps) > 0 {
			a, b := joinProblems(ps)
			t.fail(a, "%s", b)
		}
	}
	do := func(r io.ReadSeeker, w io.Writer) error { return saveTo(s.rs, op, w, r) }
	var pin, pout *ioProfile
	if len(in.F)+len(out.F) > 0 {
		var clone *winres.ResourceSet
		t.quietly(op.Seed+2, func() { clone, _ = s.m.build(nil) })
		pin, pout = t.profile(in, out, data, func(r io.ReadSeeker, w io.Writer) error { return saveTo(clone, op, w, r) })
	}
	x := t.perform(in, out, data, pin, pout, do)
	t.note("saveexe %s crashed=%v %d bytes %x", errStr(x.err), x.crashed, len(x.out.got), hashBytes(x.out.got))
	t.ioState(op, "exe", &x)
	dst := t.judgeOutput(op, &x, ref, "exe", func() string {
		a, _ := joinProblems(t.judgePatched(src, x.out.got, s.m, op))
		return a
	}, do)
	nf := &File{kind: "exe", data: dst, m: s.m.clone(), state: "ok", orig: ref.out}
	if dst == nil {
		nf.data, nf.state = x.out.got, tornState(out)
		if ref.err != nil {
			nf = nil
		}
	}
	if x.crashed {
		t.crash()
	} else if op.Seed%2 == 0 {
		t.checkSet(s, "C08 C18", op.Seed, false)
	}
	if nf != nil {
		t.files[op.C%len(t.files)] = nf
	}
}

// tornState tells what an incomplete output is. Old bytes left after it may
// complete it, then it is no better than any damaged file.
func tornState(out *IOSpec) string {
	if out.Stale > 0 {
		return "damaged"
	}
	return "torn"
}

// srcReads is how many pieces the source gave, each of which may be written separately.
func srcReads(x *ioRun) int {
	if x.rst == nil {
		return 0
	}
	return x.rst.st.reads
}

// judgeOutput compares what a destination received with the reference. It
// returns the complete output, or nil if the operation did not succeed.
func (t *Task) judgeOutput(op *Op, x *ioRun, ref refResult, kind string, why func() string, redo func(r io.ReadSeeker, w io.Writer) error) []byte {
	in, out := specOf(op.In), specOf(op.Out)
	if op.In == nil && kind != "exe" {
		in = nil
	}
	if x.crashed {
		return nil
	}
	tags := ioTags(in, out, x)
	own := map[string]string{"exe": "C01", "obj": "C14", "ico": "C15", "cur": "C15"}[kind]
	if x.err == nil {
		if ref.err != nil {
			t.fail("C11"+tags, "saving succeeds with these streams although it must be refused: %v", ref.err)
		}
		if d := x.out.matches(ref.out, out); d != "" {
			more := why()
			if tags == "" {
				tags = " C07 C08 C10"
			}
			t.fail(own+tags+more, "saving reports success but the output is wrong: %s", d)
		}
		if x.rst != nil && in.Chunk == 0 && in.Zero == 0 && out.K != "from" && out.K != "seekfrom" {
			if x.rst.st.reads > 2000+3*len(x.rst.data) || x.rst.st.bytesIn > int64(16*len(x.rst.data)+1<<16) || x.rst.st.seeks > 2000+len(x.rst.data) {
				t.fail("C18", "%d reads (%d bytes) and %d seeks for a file of %d bytes", x.rst.st.reads, x.rst.st.bytesIn, x.rst.st.seeks, len(x.rst.data))
			}
		}
		if x.wst != nil && x.wst.st.writes > 2000+2*len(ref.out)+srcReads(x) {
			t.fail("C18", "%d writes for an output of %d bytes", x.wst.st.writes, len(ref.out))
		}
		return append([]byte{}, x.out.got[:len(ref.out)]...)
	}
	if ref.err != nil {
		if !x.inF && !x.outF && x.err.Error() != ref.err.Error() {
			t.fail("C10"+tags, "the error is %q instead of %q", x.err, ref.err)
		}
		if !x.inF && !alwaysFails(out) && (x.out.total > 0 || x.out.total == -1 && len(x.out.got) > max(0, out.Stale-out.Start)) {
			t.fail("C11", "a refused save (%v) wrote %d bytes", x.err, x.out.total)
		}
	} else {
		if x.err == winres.ErrSignedPE {
			t.fail("C11"+tags, "an executable without a signature, or whose signature may be dropped, is refused as signed")
		}
		if x.err == winres.ErrNoResources {
			t.fail(own+tags, "saving fails with %v", x.err)
		}
		if !x.inF && !x.outF {
			t.fail(own+tags+" C18", "saving fails although no stream failed: %v", x.err)
		}
	}
	if op.Retry && !alwaysFails(out) && !(in != nil && alwaysFails(in)) {
		return t.retry(op, x, in, out, ref, own, redo)
	}
	return nil
}

// retry repeats a failed operation on the same objects and the same source.
func (t *Task) retry(op *Op, x *ioRun, in, out *IOSpec, ref refResult, own string, redo func(r io.ReadSeeker, w io.Writer) error) []byte {
	if redo == nil {
		return nil
	}
	var src io.ReadSeeker
	if x.rst != nil {
		x.rst.sp = in.calm()
		x.rst.dead, x.rst.deadS = nil, nil
		x.rst.fired = map[string]int{}
		src = x.src
	} else if x.src != nil {
		src = nil
	}
	co := out.calm()
	var w io.Writer
	var rel func() sinkResult
	if src == nil && in != nil {
		return nil
	}
	if x.wst != nil && x.wst.st.writes%4 != 3 {
		// the very object that failed, emptied or with what it got already
		w = x.dst
		empty := x.wst.st.writes%2 == 0
		rel = x.wst.again(co, empty)
		if !empty {
			co = plainIO
		}
	} else {
		w, _, rel = t.sink(co, nil)
	}
	err := redo(src, w)
	res := rel()
	t.note("retry %s %x", errStr(err), hashBytes(res.got))
	if (err == nil) != (ref.err == nil) {
		t.fail("C18", "repeating after the fault: %v, without any fault: %v", errStr(err), errStr(ref.err))
	}
	if err != nil {
		return nil
	}
	if d := res.matches(ref.out, co); d != "" {
		t.fail("C18", "repeating after the fault gives a different output: %s", d)
	}
	return append([]byte{}, res.got[:len(ref.out)]...)
}

func (t *Task) opLoad(op *Op) {
	f := t.file(op.B, "exe")
	if f == nil {
		return
	}
	in := specOf(op.In)
	single := op.O == "loadtype"
	var rs *winres.ResourceSet
	do := func(r io.ReadSeeker, w io.Writer) (err error) {
		if single {
			rs, err = winres.LoadFromEXESingleType(r, op.T.W())
		} else {
			rs, err = winres.LoadFromEXE(r)
		}
		return
	}
	pin, _ := t.profile(in, nil, f.data, do)
	x := t.perform(in, nil, f.data, pin, nil, do)
	own := "C01"
	if single {
		own = "C17"
	}
	var got *MSet
	bad := ""
	if x.err == nil && !x.crashed {
		if rs == nil {
			t.fail(own, "no error and no set")
		}
		got, bad = realSet(rs)
		if bad != "" {
			t.fail(own+" C07", "loaded set: %s", bad)
		}
		t.note("load ok %d %x", len(got.m), got.hash())
	} else {
		t.note("load %s crashed=%v", errStr(x.err), x.crashed)
	}
	t.ioState(op, f.state, &x)
	if x.crashed {
		t.crash()
		return
	}
	if t.w.plan.Light {
		if x.err == nil {
			t.sets[op.A%nReg] = newSetReg(rs, got)
		}
		return
	}
	want := f.m
	if want != nil && single {
		want = want.filter(op.T)
	}
	tags := ioTags(in, nil, &x)
	switch f.state {
	case "torn":
		if x.err == nil && (want == nil || want.diff(got, "", "") != "") {
			t.fail("C13", "a file cut short at %d of %d bytes loads as something else: %s", len(f.data), len(f.orig), want.diff(got, "what was saved", "what was loaded"))
		}
		return
	case "damaged":
		if x.err == nil {
			t.checkDamagedSet(rs, got, f, single, op)
		} else if x.err == winres.ErrNoResources && rs == nil {
			t.fail("C06", "ErrNoResources without an empty set")
		}
		return
	}
	zeroType := single && op.T == (Ident{})
	switch {
	case x.err == nil && zeroType:
		t.fail("C17", "type zero is accepted")
	case x.err == nil && want == nil:
		t.fail(own+tags, "an executable without resources loads %d resources", len(got.m))
	case x.err == nil:
		if d := want.diff(got, "the file", "what was loaded"); d != "" {
			if tags == "" {
				tags = " C10"
			}
			t.fail(own+tags, "%s", d)
		}
		if op.Seed%3 == 0 {
			if c := rs.Count(); c != len(want.m) {
				t.fail(own, "count of the loaded set is %d, expected %d", c, len(want.m))
			}
		}
		if x.rst != nil && in.Chunk == 0 && in.Zero == 0 && (x.rst.st.reads > 2000+3*len(f.data) || x.rst.st.bytesIn > int64(16*len(f.data)+1<<16) || x.rst.st.seeks > 2000+len(f.data)) {
			t.fail("C18", "%d reads (%d bytes) and %d seeks to load a file of %d bytes", x.rst.st.reads, x.rst.st.bytesIn, x.rst.st.seeks, len(f.data))
		}
	case zeroType:
		if !x.inF && x.err == winres.ErrNoResources && want != nil {
			t.fail("C17", "type zero is reported as %v", x.err)
		}
		return
	case x.err == winres.ErrNoResources && want != nil:
		t.fail(own+tags, "an executable with %d resources is said to have none", len(want.m))
	case x.err == winres.ErrNoResources:
	case !x.inF:
		t.fail(own+tags+" C18", "loading fails although the source did not fail: %v", x.err)
	}
	if x.err == nil {
		t.sets[op.A%nReg] = newSetReg(rs, got)
		i := 0
		for _, k := range got.keys() {
			if i++; i > 5 {
				break
			}
			t.hold(got.m[k], "loaded data")
		}
		return
	}
	if op.Retry && x.rst != nil && x.inF && !zeroType {
		x.rst.sp = in.calm()
		x.rst.dead, x.rst.deadS = nil, nil
		err := do(x.src, nil)
		t.note("retry %s", errStr(err))
		if want == nil {
			if err != winres.ErrNoResources {
				t.fail("C18", "loading again after the fault: %v", errStr(err))
			}
			return
		}
		if err != nil {
			t.fail("C18", "loading again after the fault: %v", err)
		}
		g, bad := realSet(rs)
		if bad == "" {
			bad = want.diff(g, "the file", "what was loaded")
		}
		if bad != "" {
			t.fail("C18", "loading again after the fault: %s", bad)
		}
		t.sets[op.A%nReg] = newSetReg(rs, g)
	}
}

func (t *Task) opIsSigned(op *Op) {
	f := t.file(op.B, "exe")
	if f == nil {
		return
	}
	in := specOf(op.In)
	var ans bool
	do := func(r io.ReadSeeker, w io.Writer) (err error) { ans, err = winres.IsSignedEXE(r); return }
	pin, _ := t.profile(in, nil, f.data, do)
	x := t.perform(in, nil, f.data, pin, nil, do)
	t.note("issigned %v %s crashed=%v pos %d", ans, errStr(x.err), x.crashed, x.finIn)
	t.ioState(op, f.state, &x)
	if x.crashed {
		t.crash()
		return
	}
	seekFault := alwaysFails(in)
	if x.rst != nil {
		seekFault = x.rst.fired["seek-err"] > 0 || x.rst.deadS != nil
	}
	if !seekFault && x.finIn != in.Pos {
		t.fail("C12", "asking whether it is signed (%v, %s) moved the stream from %d to %d", ans, errStr(x.err), in.Pos, x.finIn)
	}
	if x.err == nil && seekFault && x.finIn >= 0 && x.finIn != in.Pos && !alwaysFails(in) {
		t.fail("C05 C12", "success is reported although the stream could not be put back: it is at %d instead of %d", x.finIn, in.Pos)
	}
	if t.w.plan.Light {
		return
	}
	if f.state != "ok" {
		if x.err == nil && f.state == "torn" && len(f.data) < len(f.orig) {
			p, err := parsePE(f.orig)
			if err == nil && p.signed() != ans {
				t.fail("C13", "a file cut short is said to be signed: %v, it would be: %v", ans, p.signed())
			}
		}
		if x.err == nil && f.state == "damaged" {
			if p, err := parsePE(f.data); err == nil && ans != p.signed() {
				t.fail("C06 C11", "a damaged executable is said to be signed: %v", ans)
			}
		}
		return
	}
	p, err := parsePE(f.data)
	if err != nil {
		infra("model executable: %v", err)
	}
	tags := ioTags(in, nil, &x)
	if x.err == nil && ans != p.signed() {
		t.fail("C11"+tags, "said to be signed: %v, it is: %v", ans, p.signed())
	}
	if x.err != nil && ans {
		t.fail("C11", "signed, with an error: %v", x.err)
	}
	if x.err != nil && !x.inF {
		t.fail("C11"+tags, "asking whether it is signed fails: %v", x.err)
	}
	if x.err != nil && op.Retry && x.rst != nil {
		x.rst.sp = in.calm()
		x.rst.dead, x.rst.deadS = nil, nil
		err := do(x.src, nil)
		if err != nil || ans != p.signed() {
			t.fail("C18", "asking again after the fault: %v, %v", ans, errStr(err))
		}
	}
}

// ---------------------------------------------------------------- objects

func (t *Task) opSaveObj(op *Op) {
	s := t.set(op.A)
	out := specOf(op.Out)
	arch := winres.Arch(op.Arch)
	do := func(r io.ReadSeeker, w io.Writer) error { return s.rs.WriteObject(w, arch) }
	if t.w.plan.Light {
		x := t.perform(nil, out, nil, nil, nil, do)
		t.note("saveobj %s crashed=%v %d bytes %x", errStr(x.err), x.crashed, len(x.out.got), hashBytes(x.out.got))
		if x.crashed {
			t.crash()
		}
		return
	}
	var ref refResult
	var clone *winres.ResourceSet
	t.quietly(op.Seed+1, func() {
		var err error
		clone, err = s.m.build(newRng(op.Seed, 22))
		if err != nil {
			t.fail("C08", "rebuilding the set: %v", err)
		}
		b := &bytes.Buffer{}
		ref.err = clone.WriteObject(b, arch)
		ref.out = b.Bytes()
	})
	_, known := archMachine[op.Arch]
	if known != (ref.err == nil) {
		t.fail("C14", "writing an object for architecture %q: %v", op.Arch, errStr(ref.err))
	}
	if ref.err != nil && len(ref.out) > 0 {
		t.fail("C14", "refusing architecture %q wrote %d bytes", op.Arch, len(ref.out))
	}
	judge := func(b []byte) string {
		for _, base := range []uint32{0, 0x1000, 0x7FF000 + uint32(op.Seed%7)*0x1000} {
			if d := linkObject(b, op.Arch, s.m, base); d != "" {
				return d
			}
		}
		return ""
	}
	if ref.err == nil {
		if d := judge(ref.out); d != "" {
			t.fail("C14", "object for %s: %s", op.Arch, d)
		}
	}
	_, pout := t.profile(nil, out, nil, func(r io.ReadSeeker, w io.Writer) error { return clone.WriteObject(w, arch) })
	x := t.perform(nil, out, nil, nil, pout, do)
	t.note("saveobj %s crashed=%v %d bytes %x", errStr(x.err), x.crashed, len(x.out.got), hashBytes(x.out.got))
	t.ioState(op, fmt.Sprintf("obj %s %d", op.Arch, min(len(s.m.m), 16)), &x)
	if x.crashed {
		t.crash()
		return
	}
	if !known {
		if x.err == nil || x.out.total > 0 {
			t.fail("C14 C04", "architecture %q: %s, %d bytes written", op.Arch, errStr(x.err), x.out.total)
		}
		return
	}
	t.judgeOutput(op, &x, ref, "obj", func() string { return " C07" }, do)
	if op.Seed%2 == 0 {
		t.checkSet(s, "C08 C18", op.Seed, false)
	}
}

// opTwin builds an equal set through another history and compares all outputs.
func (t *Task) opTwin(op *Op) {
	s := t.set(op.A)
	r := newRng(op.Seed, 31)
	rs := &winres.ResourceSet{}
	ks := s.m.keys()
	if len(ks) == 0 {
		return
	}
	put := func(k Key, d []byte) {
		if err := rs.Set(k.T.W(), k.R.W(), k.L, d); err != nil {
			t.fail("C08", "Set %v: %v", k, err)
		}
	}
	var tmp []Key
	in := map[Key]bool{}
	for i := len(ks) - 1; i > 0; i-- {
		j := r.N(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	noise := func() {
		switch r.N(8) {
		case 0, 1: // something that goes away later
			k := ks[r.N(len(ks))]
			switch r.N(4) {
			case 0:
				k.L += uint16(1 + r.N(3))
			case 1:
				k.R = Ident{N: "TMP" + fmt.Sprint(r.N(3))}
			case 2:
				k.R = Ident{I: uint16(30000 + r.N(5))}
			default:
				k.T = Ident{N: "TT" + fmt.Sprint(r.N(2))}
			}
			if _, ok := s.m.m[k]; !ok {
				put(k, []byte("temporary"))
				tmp = append(tmp, k)
			}
		case 2: // removal of something present, put again later
			k := ks[r.N(len(ks))]
			put(k, nil)
			delete(in, k)
		case 3: // another value first
			k := ks[r.N(len(ks))]
			put(k, []byte{1, 2, 3})
			delete(in, k)
		case 4:
			rs.Count()
			realSet(rs)
		case 5: // a failed attempt
			_ = rs.WriteObject(&wstream{t: t, sp: &IOSpec{F: []Fault{{On: "write", K: "err", N: 1 + r.N(20)}}}, fired: map[string]int{}}, winres.ArchARM64)
		case 6: // reload through an executable
			if len(t.w.exeData) > 0 {
				e := t.w.exeData[r.N(len(t.w.exeData))]
				b := &bytes.Buffer{}
				if rs.WriteToEXE(b, bytes.NewReader(e), winres.WithAuthenticode(winres.RemoveSignature)) == nil {
					x, err := winres.LoadFromEXE(bytes.NewReader(b.Bytes()))
					if err != nil {
						t.fail("C01", "reloading: %v", err)
					}
					rs = x
				}
			}
		case 7:
			k := ks[r.N(len(ks))]
			rs.WalkType(k.T.W(), func(winres.Identifier, uint16, []byte) bool { return r.P(80) })
		}
	}
	for _, k := range ks {
		if r.N(max(100, 3*len(ks))) < 60 {
			noise()
		}
		put(k, append([]byte{}, s.m.m[k]...))
		in[k] = true
	}
	for i := 0; i < 3; i++ {
		noise()
	}
	for _, k := range tmp {
		put(k, nil)
	}
	for _, k := range s.m.keys() {
		if !in[k] {
			put(k, append([]byte{}, s.m.m[k]...))
		}
	}
	both := [2]*winres.ResourceSet{s.rs, rs}
	var outs [2][]byte
	for _, arch := range []winres.Arch{winres.ArchAMD64, winres.ArchI386, winres.ArchARM, winres.ArchARM64} {
		for i, x := range both {
			b := &bytes.Buffer{}
			if err := x.WriteObject(b, arch); err != nil {
				t.fail("C07", "writing an object: %v", err)
			}
			outs[i] = b.Bytes()
		}
		if !bytes.Equal(outs[0], outs[1]) {
			t.fail("C07", "two sets with the same resources give different object files for %s (%d and %d bytes)", arch, len(outs[0]), len(outs[1]))
		}
		if r.P(60) {
			break
		}
	}
	b := &bytes.Buffer{}
	if err := s.rs.WriteObject(b, winres.ArchAMD64); err != nil {
		t.fail("C07", "writing an object again: %v", err)
	}
	b2 := &bytes.Buffer{}
	if err := s.rs.WriteObject(b2, winres.ArchAMD64); err != nil || !bytes.Equal(b.Bytes(), b2.Bytes()) {
		t.fail("C07", "producing an object twice gives different bytes")
	}
	for _, e := range t.w.exeData {
		var errs [2]error
		for i, x := range both {
			b := &bytes.Buffer{}
			errs[i] = x.WriteToEXE(b, bytes.NewReader(e), winres.WithAuthenticode(winres.IgnoreSignature))
			outs[i] = b.Bytes()
		}
		if (errs[0] == nil) != (errs[1] == nil) || errs[0] == nil && !bytes.Equal(outs[0], outs[1]) {
			t.fail("C07", "two sets with the same resources give different executables (%v, %v)", errStr(errs[0]), errStr(errs[1]))
		}
	}
	for i, x := range both {
		m, b := realSet(x)
		if b != "" {
			t.fail("C07", "%s", b)
		}
		if d := s.m.diff(m, "model", "set"); d != "" {
			t.fail("C08", "after another history: %s", d)
		}
		_ = i
	}
	t.note("twin %x", hashBytes(b.Bytes()))
	if op.N == 1 {
		s.rs = rs // go on with the twin
		s.used(Key{T: nid(rtIcon), R: nid(31000)})
		s.used(Key{T: nid(rtCursor), R: nid(31000)})
	}
}
