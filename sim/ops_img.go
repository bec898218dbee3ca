package main

// Operations on icons and cursors.

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"io"

	"github.com/tc-hib/winres"
)

func (t *Task) execImg(op *Op) bool {
	switch op.O {
	case "shareimg":
		t.opShare(op)
	case "loadico":
		t.opLoadImg(op, false)
	case "loadcur":
		t.opLoadImg(op, true)
	case "saveico":
		t.opSaveImg(op, false)
	case "savecur":
		t.opSaveImg(op, true)
	case "newicon":
		t.opNewImg(op, false)
	case "newcur":
		t.opNewImg(op, true)
	case "seticon":
		t.opSetImg(op, false)
	case "setcur":
		t.opSetImg(op, true)
	case "geticon":
		t.opGetImg(op, false)
	case "getcur":
		t.opGetImg(op, true)
	default:
		return false
	}
	return true
}

func (t *Task) img(i int, cur bool) *IconReg {
	if cur {
		return t.curs[i%nReg]
	}
	return t.icons[i%nReg]
}

func (t *Task) putImg(i int, cur bool, r *IconReg) {
	if cur {
		t.curs[i%nReg] = r
	} else {
		t.icons[i%nReg] = r
	}
}

// opShare gives a task an icon or cursor which others start from as well.
func (t *Task) opShare(op *Op) {
	w := t.w
	if w.shared == nil {
		w.shared = make([]*IconReg, len(w.plan.Icos))
		for i := range w.plan.Icos {
			i := i
			t.quietly(uint64(i), func() {
				if r, err := loadImg(bytes.NewReader(w.icoData[i]), w.plan.Icos[i].Cur); err == nil {
					r.im = sortImgs(w.plan.Icos[i].imgs())
					w.shared[i] = r
				}
			})
		}
	}
	if r := w.shared[op.A%len(w.shared)]; r != nil {
		t.putImg(op.B, w.plan.Icos[op.A%len(w.shared)].Cur, &IconReg{ic: r.ic, cu: r.cu, im: r.im})
	}
}

func kindOf(cur bool) string {
	if cur {
		return "cur"
	}
	return "ico"
}

func loadImg(r io.ReadSeeker, cur bool) (*IconReg, error) {
	if cur {
		c, err := winres.LoadCUR(r)
		return &IconReg{cu: c}, err
	}
	i, err := winres.LoadICO(r)
	return &IconReg{ic: i}, err
}

func (r *IconReg) save(w io.Writer, cur bool) error {
	if cur {
		return r.cu.SaveCUR(w)
	}
	return r.ic.SaveICO(w)
}

func (r *IconReg) setIn(rs *winres.ResourceSet, op *Op, cur bool) error {
	switch {
	case cur && op.HasL:
		return rs.SetCursorTranslation(op.R.W(), op.L, r.cu)
	case cur:
		return rs.SetCursor(op.R.W(), r.cu)
	case op.HasL:
		return rs.SetIconTranslation(op.R.W(), op.L, r.ic)
	}
	return rs.SetIcon(op.R.W(), r.ic)
}

func getFrom(rs *winres.ResourceSet, op *Op, cur bool) (*IconReg, error) {
	var err error
	r := &IconReg{}
	switch {
	case cur && op.HasL:
		r.cu, err = rs.GetCursorTranslation(op.R.W(), op.L)
	case cur:
		r.cu, err = rs.GetCursor(op.R.W())
	case op.HasL:
		r.ic, err = rs.GetIconTranslation(op.R.W(), op.L)
	default:
		r.ic, err = rs.GetIcon(op.R.W())
	}
	if err == nil && r.cu == nil && r.ic == nil {
		err = fmt.Errorf("no error and nothing returned")
	}
	return r, err
}

// observe tells what an icon or cursor holds, by storing it in a set of its own.
func (t *Task) observe(r *IconReg, cur bool) (im []Img, err error) {
	t.quietly(99, func() {
		rs := &winres.ResourceSet{}
		op := &Op{R: nid(1)}
		if err = r.setIn(rs, op, cur); err != nil {
			return
		}
		m, bad := realSet(rs)
		if bad != "" {
			err = fmt.Errorf("%s", bad)
			return
		}
		var ok bool
		im, ok = groupImgs(m.deep(), cur, nid(1), nil)
		if !ok {
			err = fmt.Errorf("the group made from it is invalid")
		}
	})
	return
}

func (t *Task) opLoadImg(op *Op, cur bool) {
	kind := kindOf(cur)
	f := t.file(op.B, kind)
	if f == nil {
		return
	}
	in := specOf(op.In)
	var reg *IconReg
	do := func(r io.ReadSeeker, w io.Writer) (err error) { reg, err = loadImg(r, cur); return }
	pin, _ := t.profile(in, nil, f.data, do)
	x := t.perform(in, nil, f.data, pin, nil, do)
	t.note("load%s %s crashed=%v", kind, errStr(x.err), x.crashed)
	t.ioState(op, kind+f.state, &x)
	if x.crashed {
		t.crash()
		return
	}
	if t.w.plan.Light {
		if x.err == nil {
			t.putImg(op.A, cur, reg)
			im, err := t.observe(reg, cur)
			t.note("holds %s %d images %x", errStr(err), len(im), hashStr(fmt.Sprint(im)))
			reg.im = im
		}
		return
	}
	tags := ioTags(in, nil, &x)
	check := func() string {
		im, err := t.observe(reg, cur)
		if err != nil {
			return fmt.Sprintf("the loaded %s cannot be used: %v", kind, err)
		}
		if !sameImgs(im, f.im) {
			return "the loaded images differ: " + diffImgs(sortImgs(f.im), im, "the file", "memory")
		}
		return ""
	}
	switch f.state {
	case "torn":
		if x.err == nil {
			if d := check(); d != "" {
				t.fail("C13", "a file cut short at %d of %d bytes: %s", len(f.data), len(f.orig), d)
			}
		}
		return
	case "damaged":
		if x.err == nil {
			t.checkDamagedImg(reg, f, cur)
		}
		return
	}
	if x.err != nil {
		if !x.inF {
			t.fail("C15"+tags+" C18", "loading a valid %s file fails: %v", kind, x.err)
		}
		if op.Retry && x.rst != nil {
			x.rst.sp = in.calm()
			x.rst.dead, x.rst.deadS = nil, nil
			if _, err := x.rst.seek(0, io.SeekStart); err != nil {
				infra("seek: %v", err)
			}
			if err := do(x.src, nil); err != nil {
				t.fail("C18", "loading again after the fault: %v", err)
			}
			if d := check(); d != "" {
				t.fail("C18", "loading again after the fault: %s", d)
			}
		}
		return
	}
	if x.rst != nil && in.Chunk == 0 && in.Zero == 0 && (x.rst.st.reads > 400+40*len(f.im)+len(f.data) || x.rst.st.seeks > 400+40*len(f.im)) {
		t.fail("C18", "%d reads and %d seeks to load %d images", x.rst.st.reads, x.rst.st.seeks, len(f.im))
	}
	if op.Seed%2 == 0 || x.inF {
		if d := check(); d != "" {
			t.fail("C15"+tags, "%s", d)
		}
	}
	reg.im = f.im
	t.putImg(op.A, cur, reg)
}

func (t *Task) opSaveImg(op *Op, cur bool) {
	kind := kindOf(cur)
	reg := t.img(op.B, cur)
	if reg == nil {
		return
	}
	out := specOf(op.Out)
	do := func(r io.ReadSeeker, w io.Writer) error { return reg.save(w, cur) }
	if cur && !loadable(reg.im) {
		// made of resources which are not images, it cannot be loaded again
		return
	}
	if t.w.plan.Light {
		x := t.perform(nil, out, nil, nil, nil, do)
		t.note("save%s %s crashed=%v %x", kind, errStr(x.err), x.crashed, hashBytes(x.out.got))
		if x.crashed {
			t.crash()
		} else if x.err == nil {
			t.files[op.C%len(t.files)] = &File{kind: kind, data: x.out.got, state: "ok", im: reg.im}
		}
		return
	}
	var ref refResult
	var clone *IconReg
	t.quietly(op.Seed+1, func() {
		var err error
		clone, err = loadImg(bytes.NewReader(buildICO(reg.im, cur, op.Seed%2 == 0, int(op.Seed%3), 0)), cur)
		if err != nil {
			t.fail("C15", "loading a valid %s file fails: %v", kind, err)
		}
		b := &bytes.Buffer{}
		ref.err = clone.save(b, cur)
		ref.out = b.Bytes()
	})
	if ref.err != nil {
		t.fail("C15", "saving a %s fails: %v", kind, ref.err)
	}
	im, err := parseICO(ref.out, cur, true)
	if err != nil {
		t.fail("C15", "the %s file written is invalid: %v", kind, err)
	}
	if !sameImgs(im, reg.im) {
		t.fail("C15", "the %s file written does not hold the same images: %s", kind, diffImgs(sortImgs(reg.im), im, "memory", "the file"))
	}
	_, pout := t.profile(nil, out, nil, func(r io.ReadSeeker, w io.Writer) error { return clone.save(w, cur) })
	x := t.perform(nil, out, nil, nil, pout, do)
	t.note("save%s %s crashed=%v %x", kind, errStr(x.err), x.crashed, hashBytes(x.out.got))
	t.ioState(op, fmt.Sprintf("%s%d", kind, len(reg.im)), &x)
	imgs := reg.im
	if x.crashed {
		t.crash()
		t.files[op.C%len(t.files)] = &File{kind: kind, data: x.out.got, state: tornState(out), im: imgs, orig: ref.out}
		return
	}
	dst := t.judgeOutput(op, &x, ref, kind, func() string {
		// judge what was written on its own
		n := len(ref.out)
		if len(x.out.got) < n {
			n = len(x.out.got)
		}
		if got, err := parseICO(x.out.got[:n], cur, true); err != nil || !sameImgs(got, reg.im) {
			return " C15 C09"
		}
		return ""
	}, do)
	nf := &File{kind: kind, data: dst, state: "ok", im: imgs}
	if dst == nil {
		nf.data, nf.state, nf.orig = x.out.got, tornState(out), ref.out
	}
	t.files[op.C%len(t.files)] = nf
}

func (t *Task) opNewImg(op *Op, cur bool) {
	r := newRng(op.Seed, 41)
	n := op.N
	var pics []image.Image
	var hots []winres.HotSpot
	for i := 0; i < n; i++ {
		w, h := 1+r.N(12), 1+r.N(12)
		if r.P(50) {
			h = w
		}
		if r.P(4) {
			w = 256
		}
		pics = append(pics, picture(w, h, r.U64()))
		hot := winres.HotSpot{X: uint16(r.N(w)), Y: uint16(r.N(h))}
		if r.P(15) {
			hot.X = uint16(r.U64())
		}
		if r.P(15) {
			hot.Y = uint16(r.U64())
		}
		hots = append(hots, hot)
	}
	sum := func() string {
		s := ""
		for _, p := range pics {
			switch p := p.(type) {
			case *image.Gray:
				s += fmt.Sprint(hashBytes(p.Pix), p.Rect, p.Stride)
			case *image.RGBA:
				s += fmt.Sprint(hashBytes(p.Pix), p.Rect, p.Stride)
			case *image.NRGBA:
				s += fmt.Sprint(hashBytes(p.Pix), p.Rect, p.Stride)
			}
		}
		return s
	}
	before := sum()
	resized := !cur && n == 1 && op.Seed%3 == 0
	make1 := func() (*IconReg, error) {
		reg := &IconReg{}
		var err error
		if cur {
			var l []winres.CursorImage
			for i := range pics {
				l = append(l, winres.CursorImage{Image: pics[i], HotSpot: hots[i]})
			}
			reg.cu, err = winres.NewCursorFromImages(l)
		} else if resized {
			reg.ic, err = winres.NewIconFromResizedImage(pics[0], []int{16, 4, 8})
		} else {
			reg.ic, err = winres.NewIconFromImages(pics)
		}
		return reg, err
	}
	reg, err := make1()
	if b := pics[0].Bounds(); err != nil && resized && max(b.Dx(), b.Dy()) > 8*min(b.Dx(), b.Dy()) {
		t.note("new%s %v", kindOf(cur), err) // too flat, nothing is left of it once resized
		return
	}
	if err != nil {
		t.fail("C09 C15", "making a %s from %d valid images: %v", kindOf(cur), n, err)
	}
	if sum() != before {
		t.fail("C10", "making a %s modified the caller's images", kindOf(cur))
	}
	var im []Img
	t.quietly(5, func() {
		twin, err := make1()
		if err != nil {
			t.fail("C07", "making the same %s again: %v", kindOf(cur), err)
		}
		im, err = t.observe(twin, cur)
		if err != nil {
			t.fail("C09 C15", "a new %s cannot be used: %v", kindOf(cur), err)
		}
	})
	if !resized {
		if len(im) != n {
			t.fail("C09 C15", "%d images make a %s of %d images", n, kindOf(cur), len(im))
		}
		seen := map[string]int{}
		for i, p := range pics {
			b := p.Bounds()
			s := max(b.Dx(), b.Dy())
			hx, hy := uint16(0), uint16(0)
			if cur {
				hx, hy = hots[i].X, hots[i].Y
			}
			seen[fmt.Sprint(s, s, 32, 1, hx, hy)]++
		}
		for _, x := range im {
			k := fmt.Sprint(x.W, x.H, x.Bits, x.Planes, x.HX, x.HY)
			if seen[k]--; seen[k] < 0 {
				t.fail("C09 C15", "a new %s has an image %v that corresponds to none given", kindOf(cur), x)
			}
		}
	}
	for _, x := range im {
		if d := badPicture(x); d != "" {
			t.fail("C15", "a new %s has an image %v that is invalid: %s", kindOf(cur), x, d)
		}
	}
	reg.im = im
	t.note("new%s %x", kindOf(cur), hashStr(fmt.Sprint(im)))
	t.putImg(op.A, cur, reg)
}

// badPicture tells what is wrong with the bytes of an image.
func badPicture(x Img) string {
	if bytes.HasPrefix(x.Data, []byte("\x89PNG")) {
		c, err := png.DecodeConfig(bytes.NewReader(x.Data))
		if err != nil {
			return err.Error()
		}
		if c.Width != x.W || c.Height != x.H {
			return fmt.Sprintf("it is a PNG of %dx%d", c.Width, c.Height)
		}
		return ""
	}
	if len(x.Data) < 40 || le.Uint32(x.Data) < 40 || int64(le.Uint32(x.Data)) > int64(len(x.Data)) {
		return "neither a PNG nor a DIB"
	}
	w, h := int32(le.Uint32(x.Data[4:])), int32(le.Uint32(x.Data[8:]))
	pl, bits := le.Uint16(x.Data[12:]), le.Uint16(x.Data[14:])
	if int(w) != x.W || int(h) != 2*x.H || pl != 1 || bits != x.Bits {
		return fmt.Sprintf("its DIB is %dx%d, %d planes of %d bits", w, h, pl, bits)
	}
	if need := int64(le.Uint32(x.Data)) + int64(x.H)*((int64(x.W)*int64(bits)+31)/32*4); int64(len(x.Data)) < need {
		return fmt.Sprintf("its DIB has %d bytes of at least %d", len(x.Data), need)
	}
	return ""
}

func (t *Task) opSetImg(op *Op, cur bool) {
	s := t.set(op.A)
	reg := t.img(op.B, cur)
	if reg == nil {
		return
	}
	kind := kindOf(cur)
	gt, it := nid(rtGroupIcon), nid(rtIcon)
	if cur {
		gt, it = nid(rtGroupCursor), nid(rtCursor)
	}
	gk := Key{gt, op.R, 0}
	if op.HasL {
		gk.L = op.L
	}
	s.mark()
	maxID := s.hi[0]
	if cur {
		maxID = s.hi[1]
	}
	err := reg.setIn(s.rs, op, cur)
	got, bad := (*MSet)(nil), ""
	t.quietly(op.Seed, func() { got, bad = realSet(s.rs) })
	t.note("set%s %v %s -> %x", kind, gk, errStr(err), got.hash())
	t.checkOthers(s, "adding the "+kind)
	if bad != "" {
		t.fail("C09 C07", "%s", bad)
	}
	t.state("set%s n=%d err=%v max=%d replaced=%v", kind, len(reg.im), err != nil, maxID/8192, s.m.m[gk] != nil)
	valid := op.R.valid()
	if tooLong(op.R) {
		s.m = got.deep()
		s.mark()
		return
	}
	if !valid {
		if err == nil {
			t.fail("C08", "an invalid identifier is accepted")
		}
		if d := s.m.diff(got, "the set before", "the set after"); d != "" {
			t.fail("C08", "a refused identifier changes the set: %s", d)
		}
		return
	}
	var fresh []Key
	for _, k := range s.m.keys() {
		if k == gk && err == nil {
			continue
		}
		d, ok := got.m[k]
		if !ok {
			t.fail("C09 C08", "adding %v removed %v", gk, k)
		}
		if !bytes.Equal(d, s.m.m[k]) {
			t.fail("C09 C08", "adding %v overwrote %v", gk, k)
		}
	}
	used := map[Ident]bool{}
	for k := range s.m.m {
		if k.T == it {
			used[k.R] = true
		}
	}
	for _, k := range got.keys() {
		if _, ok := s.m.m[k]; ok || k == gk {
			continue
		}
		if k.T != it || k.R.isName() {
			t.fail("C09 C08", "adding %v also added %v", gk, k)
		}
		if used[k.R] {
			t.fail("C09", "adding %v reuses image number %v in another language", gk, k.R)
		}
		fresh = append(fresh, k)
	}
	if err != nil {
		if maxID+len(reg.im) <= 0xFFFF {
			t.fail("C09", "adding a %s of %d images with numbers up to %d in use: %v", kind, len(reg.im), maxID, err)
		}
		s.m = got.deep()
		s.mark()
		return
	}
	im, ok := groupImgs(got, cur, op.R, &gk.L)
	if !ok {
		t.fail("C09 C15", "the %s just added is incomplete", kind)
	}
	if !sameImgs(im, reg.im) {
		t.fail("C09 C15", "the %s just added is not the one given: %s", kind, diffImgs(sortImgs(reg.im), im, "the original", "the set"))
	}
	if d := notSorted(im); d != "" {
		t.fail("C09", "%s", d)
	}
	if len(fresh) != len(reg.im) {
		t.fail("C09", "%d image numbers for %d images", len(fresh), len(reg.im))
	}
	s.m = got.deep()
	s.mark()
}

// checkOthers makes sure that sets an operation was not about are as they were.
func (t *Task) checkOthers(s *SetReg, what string) {
	n := 0
	sets := t.sets[:]
	if t.inPre { // nobody is in the middle of anything
		sets = nil
		for _, x := range t.w.tasks {
			sets = append(sets, x.sets[:]...)
		}
	}
	for _, o := range sets {
		if o == nil || o == s {
			continue
		}
		if n += len(o.m.m); n > 400 {
			return
		}
		t.quietly(7, func() {
			got, bad := realSet(o.rs)
			if d := o.m.diff(got, "what it was", "what it is"); d != "" || bad != "" {
				t.fail("C10", "%s to a set changed another: %s%s", what, d, bad)
			}
		})
	}
}

func notSorted(im []Img) string {
	for i := 1; i < len(im); i++ {
		if im[i-1].Bits < im[i].Bits || im[i-1].Bits == im[i].Bits && im[i-1].W < im[i].W {
			return fmt.Sprintf("images are not in order of descending quality: %v before %v", im[i-1], im[i])
		}
	}
	return ""
}

func (t *Task) opGetImg(op *Op, cur bool) {
	s := t.set(op.A)
	kind := kindOf(cur)
	reg, err := getFrom(s.rs, op, cur)
	var lang *uint16
	if op.HasL {
		lang = &op.L
	}
	want, ok := groupImgs(s.m, cur, op.R, lang)
	t.note("get%s %v %s", kind, op.R, errStr(err))
	t.state("get%s ok=%v n=%d lang=%v", kind, ok, len(want), op.HasL)
	if err != nil {
		if ok {
			t.fail("C09 C15", "extracting %s %v: %v", kind, op.R, err)
		}
		return
	}
	im, oerr := t.observe(reg, cur)
	if oerr != nil {
		t.fail("C09 C15", "the %s extracted cannot be used: %v", kind, oerr)
	}
	if !ok {
		t.fail("C09 C06", "a %s is extracted from a group that is absent, incomplete or invalid", kind)
	}
	if !sameImgs(im, want) {
		t.fail("C09 C15", "extracting %s %v: %s", kind, op.R, diffImgs(sortImgs(want), im, "the set", "the result"))
	}
	if op.Seed%2 == 0 {
		if reg, err = getFrom(s.rs, op, cur); err != nil { // one that was not observed
			t.fail("C09", "extracting %s %v again: %v", kind, op.R, err)
		}
	}
	reg.im = want
	deepImgs(reg.im)
	t.putImg(op.B, cur, reg)
}

func deepImgs(im []Img) {
	for i := range im {
		im[i].Data = append([]byte{}, im[i].Data...)
	}
}
