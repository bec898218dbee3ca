package main

// What happens besides: unrelated work, and a look at everything that an
// operation had no business with.

import (
	"bytes"
	"image"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

// checkBystanders compares all objects of a task with their models, in
// particular those the last operations did not touch.
func (t *Task) checkBystanders(seed uint64, all bool) {
	r := newRng(seed, 71)
	for i, s := range t.sets {
		if s == nil || s.rs == nil || s.m == nil || len(s.m.m) > 300 {
			continue
		}
		got, bad := realSet(s.rs)
		if bad == "" {
			bad = s.m.diff(got, "model", "set")
		}
		if bad != "" {
			t.fail("C08 C10", "set %d after all this: %s", i, bad)
		}
		if n := s.rs.Count(); n != len(s.m.m) {
			t.fail("C08 C10", "set %d after all this: count is %d, expected %d", i, n, len(s.m.m))
		}
	}
	look := func(i int, reg *IconReg, cur bool) {
		if reg == nil || reg.im == nil || len(reg.im) > 50 || !all && r.P(30) {
			return
		}
		im, err := t.observe(reg, cur)
		if err != nil || !sameImgs(im, reg.im) {
			what := diffImgs(sortImgs(reg.im), im, "before", "now")
			if err != nil {
				what = err.Error()
			}
			t.fail("C09 C10 C15", "%s %d is not the same after all this: %s", kindOf(cur), i, what)
		}
	}
	for i := range t.icons {
		look(i, t.icons[i], false)
		look(i, t.curs[i], true)
	}
	for i, v := range t.vers {
		if v == nil || v.vi == nil || v.m == nil {
			continue
		}
		if d := v.m.diff(verModel(v.vi), "before", "now"); d != "" {
			t.fail("C10 C16", "version information %d is not the same after all this: %s", i, d)
		}
	}
}

// opDecoy does work that has nothing to do with what the task has. Whatever
// comes of it is dropped.
func (t *Task) opDecoy(op *Op) {
	r := newRng(op.Seed, 73)
	w := t.w
	t.quietly(op.Seed, func() {
		for n := r.Between(1, 3); n > 0; n-- {
			switch r.N(8) {
			case 0, 1:
				rs := &winres.ResourceSet{}
				id := winres.ID(r.Pick(1, 2, 7, 0xFFFF))
				var pics []image.Image
				var curs []winres.CursorImage
				for k := r.Between(1, 3); k > 0; k-- {
					p := picture(r.Between(1, 12), r.Between(1, 12), r.U64())
					pics = append(pics, p)
					curs = append(curs, winres.CursorImage{Image: p, HotSpot: winres.HotSpot{X: uint16(r.N(9)), Y: uint16(r.N(9))}})
				}
				if ic, err := winres.NewIconFromImages(pics); err == nil {
					rs.SetIcon(id, ic)
					if ic, err = rs.GetIcon(id); err == nil {
						ic.SaveICO(&bytes.Buffer{})
					}
				}
				if cu, err := winres.NewCursorFromImages(curs); err == nil {
					rs.SetCursor(id, cu)
					if cu, err = rs.GetCursor(id); err == nil {
						cu.SaveCUR(&bytes.Buffer{})
					}
				}
			case 2, 3:
				rs := &winres.ResourceSet{}
				for k := r.Between(1, 6); k > 0; k-- {
					d := make([]byte, r.N(90))
					for x := range d {
						d[x] = byte(r.U64())
					}
					var id winres.Identifier = winres.ID(r.Between(1, 9))
					if r.P(40) {
						id = winres.Name(r.PickS("DECOY", "A", "B", "ICON", "OTHER NAME"))
					}
					rs.Set(winres.ID(r.Between(1, 30)), id, uint16(r.Pick(0, 0x409, 0x40C)), d)
				}
				rs.WriteObject(&bytes.Buffer{}, winres.Arch(r.PickS("386", "amd64", "arm", "arm64")))
				if len(w.exeData) > 0 {
					rs.WriteToEXE(&bytes.Buffer{}, bytes.NewReader(w.exeData[r.N(len(w.exeData))]), winres.WithAuthenticode(winres.IgnoreSignature))
				}
				rs.Walk(func(winres.Identifier, winres.Identifier, uint16, []byte) bool { return true })
			case 4:
				if len(w.exeData) > 0 {
					d := w.exeData[r.N(len(w.exeData))]
					if len(d) < 1<<20 {
						winres.LoadFromEXE(bytes.NewReader(d))
						winres.IsSignedEXE(bytes.NewReader(d))
					}
				}
			case 5:
				if len(w.icoData) > 0 {
					k := r.N(len(w.icoData))
					if len(w.icoData[k]) < 1<<20 {
						if reg, err := loadImg(bytes.NewReader(w.icoData[k]), w.plan.Icos[k].Cur); err == nil {
							reg.save(&bytes.Buffer{}, w.plan.Icos[k].Cur)
						}
					}
				}
			default:
				vi := &version.Info{FileVersion: [4]uint16{uint16(r.N(9)), 2, 3, uint16(r.N(70000))}}
				vi.Flags.Debug, vi.Flags.Patched = r.P(50), r.P(50)
				for k := r.Between(1, 5); k > 0; k-- {
					vi.Set(uint16(r.Pick(0, 0x409, 0x40C)), r.PickS(version.CompanyName, version.ProductName, "Decoy", "x"), r.PickS("decoy", "", "another value", "y"))
				}
				if v2, err := version.FromBytes(vi.Bytes()); err == nil {
					version.MergeTranslations(v2.SplitTranslations())
				}
				rs := &winres.ResourceSet{}
				rs.SetVersionInfo(*vi)
				rs.SetManifest(winres.AppManifest{Identity: winres.AssemblyIdentity{Name: "decoy"}})
			}
		}
	})
	t.checkBystanders(op.Seed, true)
}
