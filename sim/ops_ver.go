package main

// Operations on version information and manifests.

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

func (t *Task) execVer(op *Op) bool {
	switch op.O {
	case "newver":
		if len(t.w.plan.Vers) == 0 {
			return true
		}
		m := t.w.plan.Vers[op.N%len(t.w.plan.Vers)].model()
		t.vers[op.A%nReg] = &VerReg{m.real(newRng(op.Seed, 51)), m}
	case "vset":
		t.opVSet(op)
	case "vfile":
		t.opVFile(op)
	case "setver":
		t.opSetVer(op)
	case "getver":
		t.opGetVer(op)
	case "vbytes":
		t.opVBytes(op)
	case "vcut":
		t.opVCut(op)
	case "vdamage":
		t.opVDamage(op)
	case "setmanifest":
		s := t.set(op.A)
		m := winres.AppManifest{Description: string(op.D.B), DPIAwareness: winres.DPIAwareness(op.N % 4), ExecutionLevel: winres.ExecutionLevel(op.N % 3), UseCommonControlsV6: op.N%2 == 1}
		s.rs.SetManifest(m)
		d := s.rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
		if d == nil {
			t.fail("C08", "no manifest after SetManifest")
		}
		s.m.m[Key{nid(rtManifest), nid(1), 0x409}] = append([]byte{}, d...)
		t.note("manifest %x", hashBytes(d))
	case "mdamage":
		t.opMDamage(op)
	default:
		return false
	}
	return true
}

func (m *MVer) copy() *MVer {
	c := *m
	c.T = map[uint16]map[string]string{}
	for l, st := range m.T {
		c.T[l] = map[string]string{}
		for k, v := range st {
			c.T[l][k] = v
		}
	}
	return &c
}

func (t *Task) opVSet(op *Op) {
	v := t.vers[op.A%nReg]
	if v == nil {
		return
	}
	key, val := op.T.N, string(op.D.B)
	err := v.vi.Set(op.L, key, val)
	valid := key != "" && !bytes.Contains([]byte(key+val), []byte{0})
	if valid != (err == nil) {
		t.fail("C16", "setting %q to %q: %v", key, val, errStr(err))
	}
	if valid {
		if v.m.T[op.L] == nil {
			v.m.T[op.L] = map[string]string{}
		}
		v.m.T[op.L][key] = val
	}
	t.checkVer(v, "C16")
}

func (t *Task) checkVer(v *VerReg, props string) {
	got := verModel(v.vi)
	if d := v.m.diff(got, "model", "memory"); d != "" {
		t.fail(props, "%s", d)
	}
	t.checkMain(v.vi, "C16 C07")
	// the table is a copy: what becomes of it is nobody else's business
	lt := v.vi.Table()
	for l, st := range lt {
		if st == nil {
			continue
		}
		for k := range *st {
			if len(k)%2 == 0 {
				(*st)[k] = "changed in a copy"
			} else {
				delete(*st, k)
			}
		}
		(*st)["AddedToACopy"] = "x"
		if l%3 == 0 {
			delete(lt, l)
		}
	}
	if lt != nil {
		lt[0x1234] = &version.StringTable{"AddedToACopy": "y"}
		if d := v.m.diff(verModel(v.vi), "before", "now"); d != "" {
			t.fail("C10 C16", "a copy of the strings was changed, and so was the original: %s", d)
		}
	}
}

// checkMain asks for the main translation: neutral, en-US, or the first language.
func (t *Task) checkMain(vi *version.Info, props string) {
	m := verModel(vi)
	main := -1
	for l := range m.T {
		if main < 0 || int(l) < main {
			main = int(l)
		}
	}
	for _, l := range []int{0x409, 0} {
		if _, ok := m.T[uint16(l)]; ok {
			main = l
		}
	}
	st := vi.Table().GetMainTranslation()
	if main < 0 {
		if len(st) != 0 {
			t.fail(props, "there is no language, but the main translation has %d strings", len(st))
		}
		return
	}
	want := m.T[uint16(main)]
	if len(want) != len(st) {
		t.fail(props, "the main translation (%04x) has %d strings, %d were returned", main, len(want), len(st))
	}
	for k, v := range want {
		if x, ok := st[k]; !ok || x != v {
			t.fail(props, "the main translation (%04x) has %q=%q, %q was returned", main, k, v, x)
		}
	}
}

func (t *Task) opVFile(op *Op) {
	v := t.vers[op.A%nReg]
	if v == nil {
		return
	}
	r := newRng(op.Seed, 52)
	n := [4]uint16{uint16(r.N(70000)), uint16(r.N(300)), uint16(r.N(70000)), uint16(r.N(9))}
	s := fmt.Sprintf("%d.%d.%d.%d", n[0], n[1], n[2], n[3])
	key := "FileVersion"
	if op.N%2 == 0 {
		v.vi.SetFileVersion(s)
		v.m.FV = n
	} else {
		v.vi.SetProductVersion(s)
		v.m.PV = n
		key = "ProductVersion"
	}
	if len(v.m.T) == 0 {
		v.m.T[0] = map[string]string{}
	}
	for l := range v.m.T {
		v.m.T[l][key] = s
	}
	t.checkVer(v, "C16")
}

// verSize bounds the size of the binary form; the format ends at 64 KB.
func (m *MVer) verSize() int {
	n := 200
	for _, st := range m.T {
		n += 60
		for k, v := range st {
			n += 12 + 2*utf16len(k) + 2*utf16len(v)
		}
	}
	return n
}

func (t *Task) opSetVer(op *Op) {
	s, v := t.set(op.A), t.vers[op.B%nReg]
	if v == nil {
		return
	}
	st := v.m.stored()
	for _, x := range st {
		if x.verSize() > 60000 {
			return
		}
	}
	s.rs.SetVersionInfo(*v.vi)
	got, bad := (*MSet)(nil), ""
	t.quietly(op.Seed, func() { got, bad = realSet(s.rs) })
	t.note("setver %x", got.hash())
	if bad != "" {
		t.fail("C16 C07", "%s", bad)
	}
	t.state("setver langs=%d flags=%d type=%d", len(st), v.m.Flags, v.m.Type)
	want := s.m.clone()
	for l, x := range st {
		k := Key{nid(rtVersion), nid(1), l}
		d, ok := got.m[k]
		if !ok {
			t.fail("C16", "the version information of language %04x is missing from the set", l)
		}
		p, err := parseVersion(d)
		if err != nil {
			t.fail("C16", "the version information stored for language %04x is invalid: %v", l, err)
		}
		if e := x.diff(p, "what was to be stored", "the set"); e != "" {
			t.fail("C16", "language %04x: %s", l, e)
		}
		var b []byte
		t.quietly(op.Seed+3, func() { b = x.real(newRng(op.Seed, 53)).Bytes() })
		if !bytes.Equal(b, d) {
			t.fail("C07", "equal version information gives different bytes (%d and %d)", len(b), len(d))
		}
		want.m[k] = d
	}
	if e := want.diff(got, "model", "set"); e != "" {
		t.fail("C16 C08", "%s", e)
	}
	s.m = got.deep()
	t.checkVer(v, "C16 C10")
}

func (t *Task) opGetVer(op *Op) {
	s := t.set(op.A)
	infos := map[uint16]*version.Info{}
	parsed := map[uint16]*MVer{}
	var bad error
	s.rs.WalkType(winres.RT_VERSION, func(r winres.Identifier, l uint16, data []byte) bool {
		if r != winres.ID(1) {
			return true
		}
		vi, err := version.FromBytes(data)
		p, perr := parseVersion(data)
		if perr != nil {
			return true // something else, put there by a generic operation
		}
		if err != nil {
			bad = err
			return false
		}
		infos[l], parsed[l] = vi, p
		return true
	})
	if bad != nil {
		t.fail("C16", "reading version information back: %v", bad)
	}
	if len(infos) == 0 {
		return
	}
	for l, vi := range infos {
		if d := parsed[l].diff(verModel(vi), "the bytes", "what was read"); d != "" {
			t.fail("C16", "language %04x: %s", l, d)
		}
		p, ok := parsed[l].T[l]
		if !ok || len(parsed[l].T) != 1 || len(p) == 0 {
			return
		}
	}
	merged := version.MergeTranslations(infos)
	// fixed part: neutral, en-US, first
	var main *MVer
	first := 1 << 20
	for l := range parsed {
		if int(l) < first {
			first = int(l)
		}
	}
	main = parsed[uint16(first)]
	if x := parsed[0x409]; x != nil {
		main = x
	}
	if x := parsed[0]; x != nil {
		main = x
	}
	want := *main
	want.T = map[uint16]map[string]string{}
	for l, p := range parsed {
		want.T[l] = p.T[l]
	}
	got := verModel(merged)
	if d := want.diff(got, "the set", "what was recovered"); d != "" {
		t.fail("C16", "%s", d)
	}
	t.note("getver %d", len(infos))
	t.holdVer(infos, "what was merged")
	// merging again, in another order of iteration
	var again *MVer
	t.quietly(op.Seed+9, func() { again = verModel(version.MergeTranslations(infos)) })
	if d := got.diff(again, "one merge", "another merge"); d != "" {
		t.fail("C07", "%s", d)
	}
	t.mergeOdd(infos, want.T, op)
	// a further generation changes nothing
	sp := merged.SplitTranslations()
	c := want.completed()
	if len(sp) != len(c.T) {
		t.fail("C16 C07", "%d languages split into %d", len(c.T), len(sp))
	}
	st := c.stored()
	for l, x := range sp {
		if st[l] == nil {
			t.fail("C16", "splitting gives an unexpected language %04x", l)
		}
		if d := st[l].diff(verModel(x), "expected", "split"); d != "" {
			t.fail("C16", "splitting, language %04x: %s", l, d)
		}
	}
	t.vers[op.B%nReg] = &VerReg{merged, want.copy()}
}

// mergeOdd merges what no set gave: information without strings, or whose
// strings are those of another language.
func (t *Task) mergeOdd(infos map[uint16]*version.Info, strs map[uint16]map[string]string, op *Op) {
	r := newRng(op.Seed, 58)
	odd := map[uint16]*version.Info{}
	want := map[uint16]map[string]string{}
	var langs []int
	for l := range infos {
		langs = append(langs, int(l))
	}
	sort.Ints(langs)
	for _, k := range langs {
		l := uint16(k)
		to := l
		if r.P(40) {
			to = uint16(r.Pick(0, 0x409, 0xFFFF, 0xFFFE, r.N(0x10000)))
		}
		if odd[to] == nil {
			odd[to], want[to] = infos[l], strs[l]
		}
	}
	for n := r.N(4); n > 0; n-- {
		l := uint16(r.Pick(0, 0x409, 1, 0xFFFF, 0xFFFE, r.N(0x10000)))
		if odd[l] == nil {
			odd[l] = &version.Info{FileVersion: [4]uint16{l}}
		}
	}
	m := version.MergeTranslations(odd)
	got := verModel(m)
	for l, st := range want {
		if !sameStrings(st, got.T[l]) {
			t.fail("C16", "merging, language %04x: %q becomes %q", l, st, got.T[l])
		}
	}
	for l, st := range got.T {
		if want[l] == nil && len(st) > 0 {
			t.fail("C16", "merging, language %04x has strings from nowhere: %q", l, st)
		}
	}
	var again *MVer
	t.quietly(op.Seed+10, func() { again = verModel(version.MergeTranslations(odd)) })
	if d := got.diff(again, "one merge", "another merge"); d != "" {
		t.fail("C07", "%s", d)
	}
	same := func(what string) {
		for l, vi := range infos {
			if !sameStrings(strs[l], verModel(vi).T[l]) {
				t.fail("C10", "%s what was merged, language %04x", what, l)
			}
		}
	}
	same("merging changes")
	// what results belongs to nobody else
	scribbleVer(m)
	same("changing the result of a merge changes")
	for _, k := range langs {
		one := version.MergeTranslations(map[uint16]*version.Info{uint16(k): infos[uint16(k)]})
		scribbleVer(one)
		same("changing the result of a merge of one changes")
	}
}

// scribbleVer changes everything in version information.
func scribbleVer(vi *version.Info) {
	for l, st := range vi.Table() {
		if st == nil {
			continue
		}
		for k := range *st {
			vi.Set(l, k, "scribbled")
		}
		vi.Set(l, "Scribbled", "x")
	}
	vi.SetFileVersion("9.8.7.6")
	vi.SetProductVersion("6.7.8.9")
	vi.Timestamp = vi.Timestamp.Add(3600e9)
	vi.Flags.Debug = !vi.Flags.Debug
}

func sameStrings(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (t *Task) opVBytes(op *Op) {
	v := t.vers[op.A%nReg]
	if v == nil || v.m.verSize() > 60000 {
		return
	}
	b := v.vi.Bytes()
	t.hold(b, "bytes of version information")
	t.note("vbytes %x", hashBytes(b))
	p, err := parseVersion(b)
	if err != nil {
		t.fail("C16", "the bytes of the version information are invalid: %v", err)
	}
	if d := v.m.diff(p, "memory", "the bytes"); d != "" {
		t.fail("C16", "%s", d)
	}
	if len(v.m.langs()) != len(p.T) {
		t.fail("C16", "%d languages in memory, %d in the bytes", len(v.m.T), len(p.T))
	}
	var o []byte
	t.quietly(op.Seed+4, func() { o = v.m.real(newRng(op.Seed, 54)).Bytes() })
	// languages without strings are not reproduced by real
	if !bytes.Equal(o, b) && nonEmpty(v.m) {
		t.fail("C07", "equal version information gives different bytes")
	}
	if b2 := v.vi.Bytes(); !bytes.Equal(b, b2) {
		t.fail("C07", "producing the bytes twice gives different results")
	}
	vi, err := version.FromBytes(b)
	if err != nil {
		t.fail("C16", "reading the bytes back: %v", err)
	}
	if d := v.m.diff(verModel(vi), "memory", "what was read back"); d != "" {
		t.fail("C16", "%s", d)
	}
	if op.N%2 == 1 { // bytes made by other tools
		b = buildVersion(v.m, op.Seed%2 == 0)
		vi, err := version.FromBytes(b)
		if err != nil {
			t.fail("C16", "reading another tool's bytes: %v", err)
		}
		if d := v.m.diff(verModel(vi), "the bytes", "what was read"); d != "" {
			t.fail("C16", "another tool's bytes: %s", d)
		}
	}
	// equal splits
	var s1, s2 map[uint16]*version.Info
	s1 = v.vi.SplitTranslations()
	t.holdVer(s1, "a split")
	t.quietly(op.Seed+5, func() { s2 = v.m.real(newRng(op.Seed, 55)).SplitTranslations() })
	if nonEmpty(v.m) {
		if len(s1) != len(s2) {
			t.fail("C07", "equal version information splits into %d and %d", len(s1), len(s2))
		}
		for l, x := range s1 {
			y := s2[l]
			if y == nil || !bytes.Equal(x.Bytes(), y.Bytes()) {
				t.fail("C07", "equal version information splits differently, language %04x", l)
			}
		}
	}
	// parts belong to nobody else
	var ls []int
	s1 = v.vi.SplitTranslations()
	for l := range s1 {
		ls = append(ls, int(l))
	}
	if len(ls) <= 8 {
		sort.Ints(ls)
		for i, l := range ls {
			var was []*MVer
			for _, k := range ls[i+1:] {
				was = append(was, verModel(s1[uint16(k)]))
			}
			scribbleVer(s1[uint16(l)])
			for j, k := range ls[i+1:] {
				if d := was[j].diff(verModel(s1[uint16(k)]), "before", "now"); d != "" {
					t.fail("C10", "changing part %04x changes part %04x: %s", l, k, d)
				}
			}
		}
	}
	t.checkVer(v, "C16 C10")
}

func nonEmpty(m *MVer) bool {
	for _, st := range m.T {
		if len(st) == 0 {
			return false
		}
	}
	return true
}

func (t *Task) opVCut(op *Op) {
	v := t.vers[op.A%nReg]
	if v == nil || v.m.verSize() > 60000 {
		return
	}
	b := v.vi.Bytes()
	if op.Seed%3 == 0 {
		b = buildVersion(v.m, op.Seed%2 == 0)
	}
	r := newRng(op.Seed, 56)
	for i := 0; i < 24; i++ {
		n := r.N(len(b))
		if r.P(30) {
			n = len(b) - 1 - r.N(min(8, len(b)))
		}
		cut := append([]byte{}, b[:n]...)
		vi, err := version.FromBytes(cut)
		if err != nil {
			continue
		}
		if d := v.m.diff(verModel(vi), "the whole", "the cut one"); d != "" {
			t.fail("C13", "version information cut to %d of %d bytes is taken for another: %s", n, len(b), d)
		}
	}
	t.w.cov.Faults["cut"] += 24
	t.note("vcut")
}

func (t *Task) opVDamage(op *Op) {
	v := t.vers[op.A%nReg]
	if v == nil || v.m.verSize() > 60000 {
		return
	}
	b := v.vi.Bytes()
	if op.Seed%3 == 0 {
		b = buildVersion(v.m, op.Seed%2 == 0)
	}
	b = applyDamage(b, op.Dmg)
	t.w.cov.Faults["damage"] += int64(len(op.Dmg))
	t.checkVerBytes(b)
	t.note("vdamage %x", hashBytes(b))
}
