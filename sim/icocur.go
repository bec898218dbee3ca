package main

// An independent writer and reader of ICO and CUR files and of icon groups.

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"sort"
)

// Img is one image of an icon or cursor. Width and height are in pixels (256 possible).
type Img struct {
	W, H         int
	Colors, Res  uint8
	Planes, Bits uint16
	HX, HY       uint16
	Data         []byte
}

func (a Img) equal(b Img) bool {
	return a.W == b.W && a.H == b.H && a.Colors == b.Colors && a.Res == b.Res && a.Planes == b.Planes &&
		a.Bits == b.Bits && a.HX == b.HX && a.HY == b.HY && bytes.Equal(a.Data, b.Data)
}

func (a Img) String() string {
	return fmt.Sprintf("%dx%d/%dbpp/%d planes/hot %d,%d/%s", a.W, a.H, a.Bits, a.Planes, a.HX, a.HY, brief(a.Data))
}

// sortImgs puts images in order of descending quality, keeping the order of equals.
func sortImgs(im []Img) []Img {
	im = append([]Img{}, im...)
	sort.SliceStable(im, func(i, j int) bool {
		if im[i].Bits != im[j].Bits {
			return im[i].Bits > im[j].Bits
		}
		return im[i].W > im[j].W
	})
	return im
}

func diffImgs(a, b []Img, an, bn string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d images in %s, %d in %s", len(a), an, len(b), bn)
	}
	for i := range a {
		if !a[i].equal(b[i]) {
			return fmt.Sprintf("image %d: %v in %s, %v in %s", i, a[i], an, b[i], bn)
		}
	}
	return ""
}

// sameImgs compares as multisets with equal keys allowed in any order.
func sameImgs(a, b []Img) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && x.equal(y) {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}

type ImgSpec struct {
	W    int    `json:"w"`
	H    int    `json:"h"`
	Col  uint8  `json:"col,omitempty"`
	Pl   uint16 `json:"pl"`
	Bits uint16 `json:"bits"`
	N    int    `json:"n"`
	S    uint64 `json:"s"`
	Png  bool   `json:"png,omitempty"`
	HX   uint16 `json:"hx,omitempty"`
	HY   uint16 `json:"hy,omitempty"`
	Hdr  int    `json:"hdr,omitempty"` // DIB header size (cursors): 40, 108 or 124
	X    int    `json:"x,omitempty"`   // one byte differs: nearly the same as another one
}

// IcoSpec describes an ICO or CUR file.
type IcoSpec struct {
	Name string    `json:"name"`
	Cur  bool      `json:"cur,omitempty"`
	Im   []ImgSpec `json:"im"`
	Rev  bool      `json:"rev,omitempty"`  // image data in reverse order
	Gap  int       `json:"gap,omitempty"`  // unused bytes between images
	Lead int       `json:"lead,omitempty"` // bytes before the header: the stream is handed over at this position
}

func pngBytes(w, h int, s uint64) []byte {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	r := newRng(s, 77)
	for i := range m.Pix {
		m.Pix[i] = byte(r.U64() & 0xF0)
	}
	var b bytes.Buffer
	_ = png.Encode(&b, m)
	return b.Bytes()
}

func (s ImgSpec) img(cur bool) Img {
	im := Img{W: s.W, H: s.H, Colors: s.Col, Planes: s.Pl, Bits: s.Bits}
	if cur {
		im.HX, im.HY = s.HX, s.HY
		im.Colors = 0
	}
	if s.Png {
		im.Data = differ(pngBytes(min(s.W, 8), min(s.H, 8), s.S), s.X, 45)
		if cur {
			im.Planes, im.Bits = 1, 32
		}
		return im
	}
	n := s.N
	if cur && n < 40 {
		n = 40
	}
	im.Data = fillBytes(n, s.S)
	if cur {
		h := s.Hdr
		if h == 0 {
			h = 40
		}
		le.PutUint32(im.Data, uint32(h))
		le.PutUint16(im.Data[12:], s.Pl)
		le.PutUint16(im.Data[14:], s.Bits)
	}
	im.Data = differ(im.Data, s.X, 16)
	return im
}

func (s *IcoSpec) imgs() []Img {
	var out []Img
	for _, i := range s.Im {
		out = append(out, i.img(s.Cur))
	}
	return out
}

func (s *IcoSpec) Build() []byte { return buildICO(s.imgs(), s.Cur, s.Rev, s.Gap, s.Lead) }

// buildICO writes a file; image offsets are relative to the start of the stream.
func buildICO(im []Img, cur, rev bool, gap, lead int) []byte {
	pos := lead + 6 + 16*len(im)
	offs := make([]int, len(im))
	idx := make([]int, len(im))
	for i := range idx {
		idx[i] = i
		if rev {
			idx[i] = len(im) - 1 - i
		}
	}
	for _, i := range idx {
		pos += gap
		offs[i] = pos
		pos += len(im[i].Data)
	}
	b := fillBytes(pos, 99)
	le.PutUint16(b[lead:], 0)
	le.PutUint16(b[lead+2:], 1)
	if cur {
		le.PutUint16(b[lead+2:], 2)
	}
	le.PutUint16(b[lead+4:], uint16(len(im)))
	for i, m := range im {
		e := b[lead+6+16*i:]
		e[0], e[1] = byte(m.W), byte(m.H)
		if cur {
			le.PutUint16(e[2:], 0)
			le.PutUint16(e[4:], m.HX)
			le.PutUint16(e[6:], m.HY)
		} else {
			e[2], e[3] = m.Colors, m.Res
			le.PutUint16(e[4:], m.Planes)
			le.PutUint16(e[6:], m.Bits)
		}
		le.PutUint32(e[8:], uint32(len(m.Data)))
		le.PutUint32(e[12:], uint32(offs[i]))
		copy(b[offs[i]:], m.Data)
	}
	return b
}

// parseICO reads a file strictly. With tight, images must be adjacent and end the file.
func parseICO(b []byte, cur, tight bool) ([]Img, error) {
	if len(b) < 6 {
		return nil, fmt.Errorf("file of %d bytes", len(b))
	}
	typ := uint16(1)
	if cur {
		typ = 2
	}
	if le.Uint16(b) != 0 || le.Uint16(b[2:]) != typ {
		return nil, fmt.Errorf("bad header %x", b[:4])
	}
	n := int(le.Uint16(b[4:]))
	if 6+16*n > len(b) {
		return nil, fmt.Errorf("directory of %d entries is out of the file", n)
	}
	end := 6 + 16*n
	var out []Img
	for i := 0; i < n; i++ {
		e := b[6+16*i:]
		m := Img{W: (int(e[0])+255)&255 + 1, H: (int(e[1])+255)&255 + 1}
		sz, off := int64(le.Uint32(e[8:])), int64(le.Uint32(e[12:]))
		if off+sz > int64(len(b)) || off < int64(6+16*n) {
			return nil, fmt.Errorf("image %d (%#x+%#x) is out of the file (%#x)", i, off, sz, len(b))
		}
		if tight {
			if off != int64(end) {
				return nil, fmt.Errorf("image %d at %#x, previous data ends at %#x", i, off, end)
			}
			end += int(sz)
		}
		m.Data = b[off : off+sz]
		if cur {
			if le.Uint16(e[2:]) != 0 {
				return nil, fmt.Errorf("reserved field of image %d is not zero", i)
			}
			m.HX, m.HY = le.Uint16(e[4:]), le.Uint16(e[6:])
			m.Planes, m.Bits = dibInfo(m.Data)
		} else {
			m.Colors, m.Res = e[2], e[3]
			m.Planes, m.Bits = le.Uint16(e[4:]), le.Uint16(e[6:])
		}
		out = append(out, m)
	}
	if tight && end != len(b) {
		return nil, fmt.Errorf("%d bytes after the last image", len(b)-end)
	}
	if tight {
		for i := 1; i < n; i++ {
			if out[i-1].Bits < out[i].Bits || out[i-1].Bits == out[i].Bits && out[i-1].W < out[i].W {
				return nil, fmt.Errorf("images not in order of descending quality: %v before %v", out[i-1], out[i])
			}
		}
	}
	return out, nil
}

// dibInfo reads planes and bits per pixel of a cursor's image.
func dibInfo(d []byte) (uint16, uint16) {
	if bytes.HasPrefix(d, []byte("\x89PNG\r\n\x1a\n")) {
		return 1, 32
	}
	if len(d) < 16 {
		return 0, 0
	}
	return le.Uint16(d[12:]), le.Uint16(d[14:])
}

// groupImgs resolves an icon or cursor group of a set, as Windows does:
// an image is looked up by number, in its first language.
// ok is false if the group must be reported as missing or invalid.
func groupImgs(m *MSet, cur bool, r Ident, lang *uint16) (im []Img, ok bool) {
	gt, it, typ := rtGroupIcon, rtIcon, uint16(1)
	if cur {
		gt, it, typ = rtGroupCursor, rtCursor, 2
	}
	var l uint16
	if lang != nil {
		l = *lang
	} else if l, ok = m.firstLang(nid(gt), r); !ok {
		return nil, false
	}
	g, ok := m.m[Key{nid(gt), r, l}]
	if !ok || len(g) < 6 || le.Uint16(g) != 0 || le.Uint16(g[2:]) != typ {
		return nil, false
	}
	n := int(le.Uint16(g[4:]))
	if len(g) < 6+14*n {
		return nil, false
	}
	for i := 0; i < n; i++ {
		e := g[6+14*i:]
		id := nid(int(le.Uint16(e[12:])))
		il, ok := m.firstLang(nid(it), id)
		if !ok {
			return nil, false
		}
		d := m.m[Key{nid(it), id, il}]
		x := Img{Planes: le.Uint16(e[4:]), Bits: le.Uint16(e[6:])}
		if cur {
			if len(d) < 4 {
				return nil, false
			}
			x.W, x.H = (int(e[0])+255)&255+1, (int(e[2])+255)&255+1
			x.HX, x.HY, x.Data = le.Uint16(d), le.Uint16(d[2:]), d[4:]
		} else {
			x.W, x.H = (int(e[0])+255)&255+1, (int(e[1])+255)&255+1
			x.Colors, x.Res, x.Data = e[2], e[3], d
		}
		im = append(im, x)
	}
	return im, true
}

// groupIDs lists the image numbers of a group.
func groupIDs(g []byte) []uint16 {
	if len(g) < 6 {
		return nil
	}
	var ids []uint16
	for i := 0; i < int(le.Uint16(g[4:])) && 6+14*(i+1) <= len(g); i++ {
		ids = append(ids, le.Uint16(g[6+14*i+12:]))
	}
	return ids
}

// picture makes a deterministic image of one of several kinds.
func picture(w, h int, s uint64) image.Image {
	r := newRng(s, 5)
	rect := image.Rect(0, 0, w, h)
	if s%3 == 1 {
		rect = rect.Add(image.Pt(r.N(20)-10, r.N(20)-10))
	}
	switch s % 4 {
	case 0:
		m := image.NewGray(rect)
		for i := range m.Pix {
			m.Pix[i] = byte(r.U64())
		}
		return m
	case 1:
		m := image.NewRGBA(rect)
		for y := rect.Min.Y; y < rect.Max.Y; y++ {
			for x := rect.Min.X; x < rect.Max.X; x++ {
				v := r.U64()
				m.Set(x, y, color.NRGBA{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
			}
		}
		return m
	default:
		m := image.NewNRGBA(rect)
		for i := range m.Pix {
			m.Pix[i] = byte(r.U64())
		}
		return m
	}
}
