package main

// Damaged files: whatever is read from them must be safe and true.

import (
	"bytes"
	"fmt"
	"image"
	_ "image/png"
	"io"
	"runtime"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

func applyDamage(b []byte, dmg []Damage) []byte {
	b = append([]byte{}, b...)
	for _, d := range dmg {
		if len(b) == 0 {
			break
		}
		at := d.At % len(b)
		switch d.K {
		case "flip":
			b[at] ^= 1 << (d.V % 8)
		case "set":
			b[at] = byte(d.V)
		case "u16":
			if at+2 <= len(b) {
				le.PutUint16(b[at:], uint16(d.V))
			}
		case "u32":
			if at+4 <= len(b) {
				le.PutUint32(b[at:], d.V)
			}
		case "add":
			if at+4 <= len(b) {
				le.PutUint32(b[at:], le.Uint32(b[at:])+d.V)
			}
		case "zero":
			for i := at; i < len(b) && i < at+d.N; i++ {
				b[i] = 0
			}
		case "fill":
			for i := at; i < len(b) && i < at+d.N; i++ {
				b[i] = byte(d.V)
			}
		case "copy": // a misdirected write
			src := int(d.V) % len(b)
			n := min(d.N, len(b)-at, len(b)-src)
			copy(b[at:at+n], append([]byte{}, b[src:src+n]...))
		case "cut":
			b = b[:at]
		}
	}
	return b
}

func (t *Task) opDamage(op *Op) {
	f := t.files[op.B%len(t.files)]
	if f == nil {
		return
	}
	for i := range op.Dmg {
		t.w.cov.Faults["damage-"+op.Dmg[i].K]++
	}
	t.files[op.C%len(t.files)] = &File{kind: f.kind, data: applyDamage(f.data, op.Dmg), state: "damaged", orig: f.data}
	t.note("damage %x", hashBytes(t.files[op.C%len(t.files)].data))
}

type memMeter struct{ before uint64 }

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// bounded runs f and checks that it does not allocate without bound.
func (t *Task) bounded(n int, what string, f func()) {
	a := allocated()
	f()
	if d := allocated() - a; d > uint64(64<<20)+uint64(n)*400 {
		t.fail("C06", "%s allocates more than %d MB for a file of %d bytes", what, d>>20, n)
	}
}

// checkDamagedSet judges a set read from a damaged executable.
func (t *Task) checkDamagedSet(rs *winres.ResourceSet, got *MSet, f *File, single bool, op *Op) {
	t.checkTrueSet(rs, got, f.data)
	if p, err := parsePE(f.data); err == nil {
		n := 0
		for i := range p.secs {
			if p.secs[i].VA == p.dir(dirRes)[0] {
				n++
			}
		}
		if r, err := p.rsrcModel(); err == nil && n == 1 {
			want := r.set
			if single {
				want = want.filter(op.T)
			}
			if d := want.diff(got, "the damaged file", "what was loaded"); d != "" {
				t.fail("C06", "%s", d)
			}
		}
	}
	t.exerciseSet(rs, got, op)
}

// checkTrueSet checks that everything in a set is valid and really in the file.
func (t *Task) checkTrueSet(rs *winres.ResourceSet, got *MSet, data []byte) {
	checked := map[string]bool{}
	for _, k := range got.keys() {
		for _, id := range []Ident{k.T, k.R} {
			if !id.valid() {
				t.fail("C06", "the loaded set has the invalid identifier %v", id)
			}
			if id.isName() && !checked[id.N] {
				checked[id.N] = true
				if !strings.ContainsRune(id.N, 0xFFFD) && !bytes.Contains(data, utf16Bytes(id.N)) {
					t.fail("C06", "the name %q is not in the file", id.N)
				}
			}
		}
		if d := got.m[k]; !bytes.Contains(data, d) {
			t.fail("C06", "the %d bytes of %v are not in the file", len(d), k)
		}
	}
	if c := rs.Count(); c != len(got.m) {
		t.fail("C06", "count is %d, a walk shows %d", c, len(got.m))
	}
}

func utf16Bytes(s string) []byte {
	var b []byte
	for _, c := range utf16.Encode([]rune(s)) {
		b = append(b, byte(c), byte(c>>8))
	}
	return b
}

// exerciseSet saves, reloads and queries a set read from a damaged file.
func (t *Task) exerciseSet(rs *winres.ResourceSet, got *MSet, op *Op) {
	for _, k := range got.keys() {
		if k.T == nid(rtGroupIcon) || k.T == nid(rtGroupCursor) {
			cur := k.T == nid(rtGroupCursor)
			o := &Op{R: k.R, L: k.L, HasL: true}
			reg, err := getFrom(rs, o, cur)
			want, ok := groupImgs(got, cur, k.R, &k.L)
			if err == nil {
				if !ok {
					t.fail("C06", "an invalid or incomplete %s group is accepted", kindOf(cur))
				}
				t.checkUsableImg(reg, want, cur)
			}
			o.HasL = false
			_, _ = getFrom(rs, o, cur)
		}
		if k.T == nid(rtVersion) {
			t.checkVerBytes(got.m[k])
		}
		if k.T == nid(rtManifest) {
			t.checkManifestBytes(got.m[k])
		}
	}
	if got.size() > 1<<20 {
		return
	}
	b := &bytes.Buffer{}
	if err := rs.WriteObject(b, winres.ArchAMD64); err != nil {
		t.fail("C06", "a set read from a damaged file cannot be saved: %v", err)
	}
	if d := linkObject(b.Bytes(), "amd64", got, 0x5000); d != "" {
		t.fail("C06", "a set read from a damaged file is saved wrongly: %s", d)
	}
	if len(t.w.exeData) > 0 {
		e := t.w.exeData[int(op.Seed)%len(t.w.exeData)]
		out := &bytes.Buffer{}
		if rs.WriteToEXE(out, bytes.NewReader(e), winres.WithAuthenticode(winres.IgnoreSignature)) == nil {
			rs2, err := winres.LoadFromEXE(bytes.NewReader(out.Bytes()))
			if err != nil {
				t.fail("C06", "a set read from a damaged file cannot be loaded again after saving: %v", err)
			}
			g2, bad := realSet(rs2)
			if bad == "" {
				bad = got.diff(g2, "the set", "the set saved and loaded")
			}
			if bad != "" {
				t.fail("C06", "%s", bad)
			}
		}
	}
}

// checkUsableImg saves and reloads an icon made from damaged data.
func (t *Task) checkUsableImg(reg *IconReg, want []Img, cur bool) {
	kind := kindOf(cur)
	im, err := t.observe(reg, cur)
	if err != nil {
		t.fail("C06", "the %s cannot be used: %v", kind, err)
	}
	if want != nil && !sameImgs(im, want) {
		t.fail("C06", "%s: %s", kind, diffImgs(sortImgs(want), im, "the data", "the result"))
	}
	b := &bytes.Buffer{}
	if err := reg.save(b, cur); err != nil {
		t.fail("C06", "the %s cannot be saved: %v", kind, err)
	}
	big := false
	for _, x := range im {
		if len(x.Data) > 0xA00000 {
			big = true
		}
		if cur { // a cursor resource may hold any image, a file tells planes and depth by the image
			if !validDIB(x.Data) {
				return
			}
		}
	}
	if big {
		return
	}
	r2, err := loadImg(bytes.NewReader(b.Bytes()), cur)
	if err != nil {
		t.fail("C06", "the %s cannot be loaded again after saving: %v", kind, err)
	}
	im2, err := t.observe(r2, cur)
	if err != nil {
		t.fail("C06", "the %s cannot be used after saving and loading: %v", kind, err)
	}
	if cur {
		im, im2 = dropFormat(im), dropFormat(im2)
	}
	if !sameImgs(im, im2) {
		t.fail("C06", "saving and loading the %s again changes it: %s", kind, diffImgs(im, im2, "before", "after"))
	}
}

func dropFormat(im []Img) []Img {
	im = append([]Img{}, im...)
	for i := range im {
		im[i].Planes, im[i].Bits = 0, 0
	}
	return im
}

func validDIB(d []byte) bool {
	if bytes.HasPrefix(d, []byte("\x89PNG\r\n\x1a\n")) {
		return false // may be a broken one
	}
	if len(d) < 16 {
		return false
	}
	h := le.Uint32(d)
	return h == 40 || h == 108 || h == 124
}

// loadable tells if images are all of a known format.
func loadable(im []Img) bool {
	for _, x := range im {
		if _, f, err := image.DecodeConfig(bytes.NewReader(x.Data)); !validDIB(x.Data) && (err != nil || f != "png") {
			return false
		}
	}
	return true
}

func (t *Task) checkDamagedImg(reg *IconReg, f *File, cur bool) {
	im, err := t.observe(reg, cur)
	if err != nil {
		t.fail("C06", "a %s loaded from a damaged file cannot be used: %v", kindOf(cur), err)
	}
	for _, x := range im {
		if !bytes.Contains(f.data, x.Data) {
			t.fail("C06", "an image of %d bytes is not in the damaged file", len(x.Data))
		}
	}
	if p, err := parseICO(f.data, cur, false); err == nil {
		if cur {
			p, im = dropFormat(p), dropFormat(im)
		}
		if !sameImgs(p, im) {
			t.fail("C06", "%s", diffImgs(sortImgs(p), im, "the damaged file", "what was loaded"))
		}
	}
	t.checkUsableImg(reg, nil, cur)
}

// saveDamaged patches a damaged executable.
func (t *Task) saveDamaged(op *Op, s *SetReg, f *File) {
	in, out := specOf(op.In).calm(), specOf(op.Out).calm()
	var x ioRun
	t.bounded(len(f.data)+s.m.size(), "patching", func() {
		x = t.perform(in, out, f.data, nil, nil, func(r io.ReadSeeker, w io.Writer) error { return saveTo(s.rs, op, w, r) })
	})
	t.note("patch damaged: %s %d bytes %x", errStr(x.err), len(x.out.got), hashBytes(x.out.got))
	t.state("patch damaged %v", x.err)
	lim := 4*len(f.data) + 2*s.m.size() + 4<<20
	if len(x.out.got) > lim+out.Stale {
		t.fail("C06", "patching a damaged executable of %d bytes writes %d bytes", len(f.data), len(x.out.got))
	}
	if x.err != nil || x.out.extra != "" {
		return
	}
	rs, err := winres.LoadFromEXE(bytes.NewReader(x.out.got))
	if err != nil {
		t.fail("C06", "patching a damaged executable succeeds, loading the result fails: %v", err)
	}
	g, bad := realSet(rs)
	if bad == "" {
		bad = s.m.diff(g, "what was saved", "what is loaded")
	}
	if bad != "" {
		t.fail("C06", "patching a damaged executable succeeds, but %s", bad)
	}
}

// opProbe asks everything of a file.
func (t *Task) opProbe(op *Op) {
	f := t.files[op.B%len(t.files)]
	if f == nil || f.state != "damaged" {
		return
	}
	n := len(f.data)
	switch f.kind {
	case "exe":
		t.bounded(n, "loading", func() { t.opLoad(&Op{O: "load", A: 5, B: op.B, Seed: op.Seed, In: op.In}) })
		for _, ty := range []int{rtGroupIcon, rtGroupCursor, rtRCData, rtVersion} {
			t.opLoad(&Op{O: "loadtype", A: 5, B: op.B, T: nid(ty), Seed: op.Seed, In: op.In})
		}
		t.bounded(n, "asking for a signature", func() { t.opIsSigned(&Op{O: "issigned", B: op.B, In: op.In}) })
	case "ico":
		t.bounded(n*30, "loading", func() { t.opLoadImg(&Op{O: "loadico", A: 5, B: op.B, In: op.In}, false) })
	case "cur":
		t.bounded(n*30, "loading", func() { t.opLoadImg(&Op{O: "loadcur", A: 5, B: op.B, In: op.In}, true) })
	}
}

// checkVerBytes reads bytes that may be anything as version information.
func (t *Task) checkVerBytes(b []byte) {
	in := append([]byte{}, b...)
	vi, err := version.FromBytes(b)
	if !bytes.Equal(in, b) {
		t.fail("C10", "reading version information modified the caller's bytes")
	}
	if err != nil {
		return
	}
	m := verModel(vi)
	t.checkMain(vi, "C06")
	for _, l := range m.langs() {
		for k, v := range m.T[l] {
			if k == "" || strings.ContainsRune(k+v, 0) {
				t.fail("C06", "damaged version information gives the invalid string %q=%q", k, v)
			}
			for _, s := range []string{k, v} {
				if !strings.ContainsRune(s, 0xFFFD) && !bytes.Contains(b, utf16Bytes(s)) {
					t.fail("C06", "the string %q is not in the damaged version information", s)
				}
			}
		}
	}
	if p, err := parseVersion(b); err == nil {
		if d := p.diff(m, "the bytes", "what was read"); d != "" {
			t.fail("C06", "%s", d)
		}
	}
	if m.verSize() > 60000 {
		return
	}
	nb := vi.Bytes()
	v2, err := version.FromBytes(nb)
	if err != nil {
		t.fail("C06", "version information read from damaged bytes cannot be read again after saving: %v", err)
	}
	m2 := verModel(v2)
	if d := m.diff(m2, "the first reading", "the second"); d != "" {
		t.fail("C06", "%s", d)
	}
	for _, x := range vi.SplitTranslations() {
		x.Bytes()
	}
	rs := &winres.ResourceSet{}
	rs.SetVersionInfo(*vi)
}

func (t *Task) checkManifestBytes(b []byte) {
	m, err := winres.AppManifestFromXML(b)
	if err != nil {
		return
	}
	if m.Identity.Name == "" {
		m.Identity = winres.AssemblyIdentity{} // a version without a name identifies nothing, it is not saved
	}
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	d := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
	m2, err := winres.AppManifestFromXML(d)
	if err != nil {
		t.fail("C06", "a manifest read from damaged bytes cannot be read again after saving: %v", err)
	}
	if fmt.Sprintf("%+v", m) != fmt.Sprintf("%+v", m2) {
		t.fail("C06", "a manifest read from damaged bytes is not the same after saving: %+v, %+v", m, m2)
	}
}

func (t *Task) opMDamage(op *Op) {
	r := newRng(op.Seed, 61)
	m := winres.AppManifest{
		Identity:                     winres.AssemblyIdentity{Name: "app" + fmt.Sprint(r.N(9)), Version: [4]uint16{uint16(r.N(70000)), 2, 3, uint16(r.N(9))}},
		Description:                  string(op.D.B),
		Compatibility:                winres.SupportedOS(r.N(5)),
		ExecutionLevel:               winres.ExecutionLevel(r.N(3)),
		DPIAwareness:                 winres.DPIAwareness(r.N(4)),
		UIAccess:                     r.P(50),
		AutoElevate:                  r.P(50),
		DisableTheming:               r.P(50),
		LongPathAware:                r.P(50),
		UseCommonControlsV6:          r.P(50),
		HighResolutionScrollingAware: r.P(50),
	}
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	d := append([]byte{}, rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)...)
	d = applyDamage(d, op.Dmg)
	t.w.cov.Faults["damage"] += int64(len(op.Dmg))
	t.checkManifestBytes(d)
	t.note("mdamage %x", hashBytes(d))
}

// opGroupDamage damages a group or an image stored in a set.
func (t *Task) opGroupDamage(op *Op) {
	s := t.set(op.A)
	var ks []Key
	for _, k := range s.m.keys() {
		grp := k.T == nid(rtGroupIcon) || k.T == nid(rtGroupCursor)
		if grp && op.N == 0 || op.N == 1 && (grp || k.T == nid(rtIcon) || k.T == nid(rtCursor)) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return
	}
	k := ks[int(op.Seed)%len(ks)]
	old := s.m.m[k]
	d := applyDamage(old, op.Dmg)
	t.w.cov.Faults["damage"] += int64(len(op.Dmg))
	put := func(d []byte) {
		if err := s.rs.Set(k.T.W(), k.R.W(), k.L, append([]byte{}, d...)); err != nil {
			t.fail("C08", "Set %v: %v", k, err)
		}
		s.m.m[k] = append([]byte{}, d...)
	}
	put(d)
	got, bad := realSet(s.rs)
	if bad != "" {
		t.fail("C06 C07", "%s", bad)
	}
	t.note("gdamage %v %x", k, hashBytes(d))
	t.exerciseSet(s.rs, got, op)
	if op.Seed%4 != 0 {
		put(old)
	}
}
