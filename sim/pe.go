package main

// An independent builder, reader and comparer of PE executables.

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
)

type SecSpec struct {
	K    string `json:"k"`              // code, data, zdata (longer in memory), bss, bssraw, empty, rsrc, reloc
	N    int    `json:"n"`              // bytes
	S    uint64 `json:"s,omitempty"`    // content seed
	Virt int    `json:"virt,omitempty"` // extra bytes in memory
	Gap  int    `json:"gap,omitempty"`  // FileAlignment units left unused before it in the file
}

type DirSpec struct {
	I   int  `json:"i"`
	Sec int  `json:"sec"` // section index, -1: in the headers after the section table
	Off int  `json:"off"`
	N   int  `json:"n"`
	Z   bool `json:"z,omitempty"` // the entry tells no size, as that of the global pointer
}

type ExeSpec struct {
	Name   string     `json:"name"`
	Bits   int        `json:"bits"`
	DLL    bool       `json:"dll,omitempty"`
	Stub   int        `json:"stub"` // bytes of DOS program after the DOS header
	FA     int        `json:"fa"`
	SA     int        `json:"sa"`
	Room   int        `json:"room"`            // least room after the section table
	Tight  int        `json:"tight,omitempty"` // 1+room: exact room (moves the PE header)
	NDirs  int        `json:"ndirs"`
	Secs   []SecSpec  `json:"secs"`
	Dirs   []DirSpec  `json:"dirs,omitempty"`
	Over   int        `json:"over,omitempty"`   // appended bytes
	Sig    int        `json:"sig,omitempty"`    // signature bytes
	SigMid int        `json:"sigmid,omitempty"` // bytes after the signature
	Sum    int        `json:"sum,omitempty"`    // 0 no checksum, 1 right, 2 wrong
	NoVS   bool       `json:"novs,omitempty"`   // sizes in memory left empty, as some linkers do
	Loose  bool       `json:"loose,omitempty"`  // the size of the last section is not rounded
	Tab    uint64     `json:"tab,omitempty"`    // when not 0, shuffles the section table
	Fil    uint64     `json:"fil,omitempty"`    // when not 0, shuffles the contents of sections in the file
	Sym    int        `json:"sym,omitempty"`    // 0 none, 1 symbol table in appended data, 2 in a section
	Res    []ResItem  `json:"res,omitempty"`
	Lay    RsrcLayout `json:"lay,omitempty"`
	Spare  int        `json:"spare,omitempty"` // unused bytes at the end of the resource section
	Inner  uint64     `json:"inner,omitempty"` // when not 0, the appended data is an executable
	Names  uint64     `json:"names,omitempty"` // when not 0, sections have unusual names and attributes
	DirSz  int        `json:"dirsz,omitempty"` // size in the directory: 0 the resources, 1 the section in memory, 2 in the file
	Seed   uint64     `json:"seed"`
}

const (
	chCode   = 0x60000020
	chData   = 0xC0000040
	chRData  = 0x40000040
	chBss    = 0xC0000080
	chReloc  = 0x42000040
	dirRes   = 2
	dirSec   = 4
	dirReloc = 5
	dirBound = 11
)

func (e *ExeSpec) hasRsrc() bool {
	for _, s := range e.Secs {
		if s.K == "rsrc" {
			return true
		}
	}
	return false
}

// tinyExe is a small executable, to be found inside others.
func tinyExe(seed uint64) []byte {
	e := &ExeSpec{Name: "tiny", Bits: 32 + int(seed&1)*32, FA: 512, SA: 4096, NDirs: 16, Seed: seed, Sum: int(seed >> 1 & 1), Over: int(seed >> 2 & 7)}
	e.Secs = []SecSpec{{K: "code", N: 20, S: seed}}
	if seed>>5&1 != 0 {
		e.Secs = append(e.Secs, SecSpec{K: "rsrc"})
		e.Res = []ResItem{{T: nid(rtRCData), R: nid(1), D: DataSpec{N: 9, S: seed}}, {T: nname("INNER"), R: nname("A"), L: 0x409, D: DataSpec{N: 3, S: seed}}}
	}
	if seed>>6&3 == 0 {
		e.Sig = 16
	}
	return e.Build()
}

// magicPlaces lists offsets at which something looks like the start of a file.
func magicPlaces(b []byte) (l []int64) {
	for i := 1; i+4 <= len(b) && len(l) < 12; i++ {
		if b[i] == 'M' && b[i+1] == 'Z' && (i%4 == 0 || b[i+2] == 0x90) || b[i] == 'P' && b[i+1] == 'E' && b[i+2] == 0 && b[i+3] == 0 {
			l = append(l, int64(i))
		}
	}
	return
}

// order is a permutation of sections.
func (e *ExeSpec) order(seed uint64) []int {
	o := make([]int, len(e.Secs))
	r := newRng(seed, 5)
	for i := range o {
		o[i] = i
		if seed != 0 {
			j := r.N(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

// Build produces the file.
func (e *ExeSpec) Build() []byte {
	optSize := 96 + 8*e.NDirs
	if e.Bits == 64 {
		optSize = 112 + 8*e.NDirs
	}
	stub := e.Stub
	lf := alignTo(0x40+stub, 4)
	hdrTail := 4 + 20 + optSize + 40*len(e.Secs)
	if e.Tight > 0 {
		// choose the PE header's offset so that the room is as asked, modulo 4
		room := (e.Tight - 1) &^ 3
		for (lf+hdrTail+room)%e.FA != 0 {
			lf += 4
		}
	}
	hdrEnd := lf + hdrTail
	sizeHdr := alignTo(hdrEnd+e.Room, e.FA)
	if e.Tight > 0 {
		sizeHdr = alignTo(hdrEnd+(e.Tight-1)&^3, e.FA)
	}
	type sec struct {
		va, vs, raw, ptr int
		data             []byte
		ch               uint32
		name             string
	}
	secs := make([]sec, len(e.Secs))
	tab, fil := e.order(e.Tab), e.order(e.Fil)
	lastData := -1
	for _, i := range fil {
		if k := e.Secs[i].K; k != "bss" && k != "empty" && k != "bssraw" {
			lastData = i
		}
	}
	va := alignTo(sizeHdr, e.SA)
	ptr := sizeHdr
	lastEnd := sizeHdr
	codeSz, dataSz, bssSz := 0, 0, 0
	rsrcIdx, relocIdx := -1, -1
	cnt := map[string]int{}
	for i, s := range e.Secs {
		x := &secs[i]
		x.va = va
		cnt[s.K]++
		sfx := ""
		if cnt[s.K] > 1 {
			sfx = fmt.Sprint(cnt[s.K])
		}
		n := s.N
		switch s.K {
		case "code":
			x.name, x.ch = ".text"+sfx, chCode
		case "data":
			x.name, x.ch = ".data"+sfx, chData
		case "zdata":
			x.name, x.ch = ".rdat"+sfx, chRData
		case "bss", "bssraw":
			x.name, x.ch = ".bss"+sfx, chBss
		case "empty":
			x.name, x.ch = ".tls"+sfx, chData
		case "reloc":
			x.name, x.ch = ".reloc"+sfx, chReloc
			relocIdx = i
		case "rsrc":
			x.name, x.ch = ".rsrc", chRData
			rsrcIdx = i
		}
		if e.Names != 0 {
			h := mix(e.Names + uint64(i)*0x9e3779b97f4a7c15)
			if h&1 != 0 {
				x.name = []string{".rsrc", "UPX1", "", "/4", "rsrc", ".data\x00x", "PAGEDATA", ".reloc", "\xff\xfe", ".rsrc\x00\x00\x01"}[h>>1%10]
			}
			if s.K != "rsrc" || h>>8&3 == 0 {
				x.ch |= []uint32{0, 0x80000000, 0x10000000, 0x02000000, 0x20000000, 0x00500000, 0x04000000, 0x08000000}[h>>10&7]
			}
		}
		switch s.K {
		case "bss", "empty":
			x.vs = n + s.Virt
			if x.vs == 0 {
				x.vs = 1
			}
		case "bssraw":
			x.vs = n + 1
			x.raw = alignTo(n, e.FA)
			bssSz += x.raw
		case "rsrc":
			x.data = buildRsrc(itemsToSet(e.Res), e.Lay, uint32(x.va))
			x.data = append(x.data, make([]byte, e.Spare)...)
			x.vs = len(x.data) + s.Virt
			x.raw = alignTo(len(x.data), e.FA)
		default:
			if n == 0 {
				n = 1
			}
			x.data = fillBytes(n, s.S)
			x.vs = n + s.Virt
			x.raw = alignTo(n, e.FA)
		}
		if e.Loose && i == lastData {
			x.raw = len(x.data)
		}
		if e.NoVS && x.raw >= x.vs && x.data != nil {
			x.vs = 0
		}
		if x.data != nil {
			if s.K == "code" {
				codeSz += x.raw
			} else {
				dataSz += x.raw
			}
		}
		if x.vs > 0 {
			va = alignTo(x.va+x.vs, e.SA)
		} else {
			va = alignTo(x.va+x.raw, e.SA)
		}
	}
	for _, i := range fil {
		if x := &secs[i]; x.data != nil {
			x.ptr = ptr + e.Secs[i].Gap*e.FA
			ptr = x.ptr + x.raw
			lastEnd = ptr
		}
	}
	total := lastEnd + e.Over
	sigOff := 0
	if e.Sig > 0 {
		sigOff = alignTo(total, 8)
		total = sigOff + e.Sig + e.SigMid
	}
	b := make([]byte, total)
	// DOS
	copy(b[2:], fillBytes(0x3A, e.Seed^1))
	copy(b, "MZ")
	le.PutUint32(b[0x3C:], uint32(lf))
	copy(b[0x40:lf], fillBytes(lf-0x40, e.Seed^2))
	copy(b[lf:], "PE\x00\x00")
	fh := b[lf+4:]
	ch := uint16(0x0102)
	if e.Bits == 64 {
		le.PutUint16(fh, 0x8664)
		ch = 0x0022
	} else {
		le.PutUint16(fh, 0x14c)
	}
	if e.DLL {
		ch |= 0x2000
	}
	le.PutUint16(fh[2:], uint16(len(e.Secs)))
	le.PutUint32(fh[4:], uint32(e.Seed*7))
	le.PutUint16(fh[16:], uint16(optSize))
	le.PutUint16(fh[18:], ch)
	switch {
	case e.Sym == 1 && e.Over >= 22:
		le.PutUint32(fh[8:], uint32(lastEnd))
		if e.Seed%3 != 0 { // or it is followed by long names only
			le.PutUint32(fh[12:], uint32((e.Over-4)/18))
		}
	case e.Sym == 2:
		for i := range secs {
			if secs[i].data != nil && i != rsrcIdx && len(secs[i].data) >= 22 {
				le.PutUint32(fh[8:], uint32(secs[i].ptr))
				le.PutUint32(fh[12:], 1)
			}
		}
	}
	oh := fh[20:]
	rnd := fillBytes(optSize, e.Seed^3)
	copy(oh, rnd[:optSize])
	magic, dd := uint16(0x10b), 96
	if e.Bits == 64 {
		magic, dd = 0x20b, 112
	}
	le.PutUint16(oh, magic)
	le.PutUint32(oh[4:], uint32(codeSz))
	le.PutUint32(oh[8:], uint32(dataSz))
	le.PutUint32(oh[12:], uint32(bssSz))
	if len(secs) > 0 {
		le.PutUint32(oh[16:], uint32(secs[0].va+1))
		le.PutUint32(oh[20:], uint32(secs[0].va))
	}
	le.PutUint32(oh[32:], uint32(e.SA))
	le.PutUint32(oh[36:], uint32(e.FA))
	le.PutUint32(oh[56:], uint32(va))
	le.PutUint32(oh[60:], uint32(sizeHdr))
	le.PutUint32(oh[64:], 0)
	le.PutUint32(oh[dd-4:], uint32(e.NDirs))
	for i := dd; i < optSize; i++ {
		oh[i] = 0
	}
	dir := func(i, a, n int) {
		if i < e.NDirs {
			le.PutUint32(oh[dd+8*i:], uint32(a))
			le.PutUint32(oh[dd+8*i+4:], uint32(n))
		}
	}
	if rsrcIdx >= 0 {
		n := len(secs[rsrcIdx].data) - e.Spare
		switch e.DirSz {
		case 1:
			n = secs[rsrcIdx].vs
		case 2:
			n = secs[rsrcIdx].raw
		}
		dir(dirRes, secs[rsrcIdx].va, n)
	}
	if relocIdx >= 0 {
		dir(dirReloc, secs[relocIdx].va, len(secs[relocIdx].data))
	}
	for _, d := range e.Dirs {
		if d.I == dirRes || d.I == dirSec || (d.I == dirReloc && relocIdx >= 0) {
			continue
		}
		if d.Sec < 0 {
			if hdrEnd+d.Off+d.N <= sizeHdr {
				dir(d.I, hdrEnd+d.Off, d.N)
				copy(b[hdrEnd+d.Off:hdrEnd+d.Off+d.N], fillBytes(d.N, e.Seed^9))
			}
			continue
		}
		if d.Sec < len(secs) && d.Sec != rsrcIdx && d.Off+d.N <= max(secs[d.Sec].vs, len(secs[d.Sec].data)) && d.N > 0 {
			n := d.N
			if d.Z {
				n = 0
			}
			dir(d.I, secs[d.Sec].va+d.Off, n)
		}
	}
	if e.Sig > 0 {
		dir(dirSec, sigOff, e.Sig)
	}
	sh := oh[optSize:]
	for j, i := range tab {
		x := &secs[i]
		h := sh[40*j:]
		copy(h[:8], x.name)
		le.PutUint32(h[8:], uint32(x.vs))
		le.PutUint32(h[12:], uint32(x.va))
		le.PutUint32(h[16:], uint32(x.raw))
		le.PutUint32(h[20:], uint32(x.ptr))
		le.PutUint32(h[36:], x.ch)
		copy(b[x.ptr:], x.data)
	}
	copy(b[lastEnd:], fillBytes(total-lastEnd, e.Seed^4))
	if e.Inner != 0 { // as installers and self-extracting archives have it
		copy(b[lastEnd:lastEnd+e.Over], tinyExe(e.Inner))
	}
	if e.Sig >= 8 {
		le.PutUint32(b[sigOff:], uint32(e.Sig))
		le.PutUint32(b[sigOff+4:], 0x00020200)
	}
	switch e.Sum {
	case 1:
		le.PutUint32(oh[64:], peSum(b, lf+4+20+64))
	case 2:
		le.PutUint32(oh[64:], uint32(e.Seed)|1)
	}
	return b
}

// peSum computes the PE checksum of a file whose checksum field is at off.
func peSum(b []byte, off int) uint32 {
	var s uint64
	for i := 0; i < len(b); i += 2 {
		w := uint64(b[i])
		if i+1 < len(b) {
			w |= uint64(b[i+1]) << 8
		}
		// the checksum field counts as zero
		if i == off-1 {
			w &= 0xFF
		} else if i == off+3 {
			w &= 0xFF00
		} else if i >= off && i < off+4 {
			w = 0
		}
		s += w
	}
	for s>>16 != 0 {
		s = s&0xFFFF + s>>16
	}
	return uint32(s) + uint32(len(b))
}

type PESec struct {
	Name             string
	VS, VA, Raw, Ptr uint32
	Rest             [12]byte
	Ch               uint32
}

// mem is the size of a section in memory.
func (s *PESec) mem() uint32 {
	if s.VS == 0 {
		return s.Raw
	}
	return s.VS
}

func (s *PESec) inFile() bool { return s.Raw > 0 && s.Ptr > 0 }

type PE struct {
	b       []byte
	lf      int
	machine uint16
	fh, oh  []byte // raw headers
	dd      int    // offset of directories in oh
	dirs    [][2]uint32
	secs    []PESec
	hdrEnd  int // end of the section table
	FA, SA  uint32
	sizeHdr uint32
	sumOff  int
	dataEnd int // end of the last section in the file
	first   int // offset of the first section in the file
	symPtr  uint32
}

func parsePE(b []byte) (*PE, error) {
	if len(b) < 0x40 || b[0] != 'M' || b[1] != 'Z' {
		return nil, errors.New("no DOS header")
	}
	p := &PE{b: b, lf: int(le.Uint32(b[0x3C:]))}
	if p.lf+24 > len(b) || string(b[p.lf:p.lf+4]) != "PE\x00\x00" {
		return nil, errors.New("no PE header")
	}
	p.fh = b[p.lf+4 : p.lf+24]
	p.machine = le.Uint16(p.fh)
	p.symPtr = le.Uint32(p.fh[8:])
	on, ns := int(le.Uint16(p.fh[16:])), int(le.Uint16(p.fh[2:]))
	if p.lf+24+on+40*ns > len(b) || on < 96 {
		return nil, errors.New("headers are out of the file")
	}
	p.oh = b[p.lf+24 : p.lf+24+on]
	switch le.Uint16(p.oh) {
	case 0x10b:
		p.dd = 96
	case 0x20b:
		p.dd = 112
	default:
		return nil, errors.New("bad magic")
	}
	if on < p.dd {
		return nil, errors.New("short optional header")
	}
	p.SA, p.FA = le.Uint32(p.oh[32:]), le.Uint32(p.oh[36:])
	p.sizeHdr = le.Uint32(p.oh[60:])
	p.sumOff = p.lf + 24 + 64
	nd := int(le.Uint32(p.oh[p.dd-4:]))
	if p.dd+8*nd != on {
		return nil, errors.New("data directories do not fit the optional header")
	}
	for i := 0; i < nd; i++ {
		p.dirs = append(p.dirs, [2]uint32{le.Uint32(p.oh[p.dd+8*i:]), le.Uint32(p.oh[p.dd+8*i+4:])})
	}
	p.hdrEnd = p.lf + 24 + on + 40*ns
	p.first = len(b)
	for i := 0; i < ns; i++ {
		h := b[p.lf+24+on+40*i:]
		s := PESec{Name: string(h[:8]), VS: le.Uint32(h[8:]), VA: le.Uint32(h[12:]), Raw: le.Uint32(h[16:]), Ptr: le.Uint32(h[20:]), Ch: le.Uint32(h[36:])}
		copy(s.Rest[:], h[24:36])
		p.secs = append(p.secs, s)
		if s.inFile() {
			if int(s.Ptr) < p.first {
				p.first = int(s.Ptr)
			}
			if e := int(s.Ptr) + int(s.Raw); e > p.dataEnd {
				p.dataEnd = e
			}
		}
	}
	if p.dataEnd == 0 {
		p.dataEnd = min(int(rnd(p.sizeHdr, p.FA)), len(b))
		p.first = p.dataEnd
	}
	return p, nil
}

func (p *PE) dir(i int) [2]uint32 {
	if i < len(p.dirs) {
		return p.dirs[i]
	}
	return [2]uint32{}
}

func (p *PE) signed() bool { return p.dir(dirSec)[0] > 0 }

func (p *PE) rsrcSec() int {
	d := p.dir(dirRes)
	if d[0] == 0 {
		return -1
	}
	for i := range p.secs {
		if p.secs[i].VA == d[0] {
			return i
		}
	}
	return -1
}

func (p *PE) raw(i int) []byte {
	s := &p.secs[i]
	if !s.inFile() {
		return nil
	}
	return p.b[s.Ptr : s.Ptr+s.Raw]
}

func rnd(v, a uint32) uint32 {
	if a == 0 {
		return v
	}
	return (v + a - 1) / a * a
}

// locate finds which section an address belongs to.
func (p *PE) locate(va uint32) (sec int, off uint32) {
	if va < p.sizeHdr {
		return -1, va
	}
	for i := range p.secs {
		s := &p.secs[i]
		if va >= s.VA && va < s.VA+s.mem() {
			return i, va - s.VA
		}
	}
	return -2, 0
}

// wellFormed checks the section table and the size fields of an image.
func (p *PE) wellFormed(before []PESec) string {
	if p.FA == 0 || p.SA == 0 {
		return "zero alignment"
	}
	var maxV uint32
	// The section table should be in the order of addresses, but not everyone cares.
	ord := make([]int, len(p.secs))
	for i := range ord {
		ord[i] = i
	}
	sort.SliceStable(ord, func(i, j int) bool { return p.secs[ord[i]].VA < p.secs[ord[j]].VA })
	for n, i := range ord {
		s := &p.secs[i]
		if s.VA%p.SA != 0 {
			return fmt.Sprintf("section %d (%q) at unaligned address %#x", i, s.Name, s.VA)
		}
		if n == 0 && s.VA < rnd(p.sizeHdr, p.SA) {
			return "first section overlaps the headers in memory"
		}
		if n > 0 {
			q := &p.secs[ord[n-1]]
			if e := rnd(q.VA+q.mem(), p.SA); s.VA < e {
				return fmt.Sprintf("section %d (%q) at %#x overlaps the previous one in memory, which ends at %#x", i, s.Name, s.VA, e)
			} else if s.VA > e {
				return fmt.Sprintf("section %d (%q) at %#x leaves a hole in memory after %#x", i, s.Name, s.VA, e)
			}
		}
		if s.VA+s.mem() > maxV {
			maxV = s.VA + s.mem()
		}
		if s.Raw == 0 {
			continue
		}
		if s.Ch&0x80 != 0 && s.Ptr == 0 {
			continue
		}
		if s.Ptr%p.FA != 0 || s.Raw%p.FA != 0 && !(i < len(before) && i != p.rsrcSec() && before[i].Raw == s.Raw) {
			return fmt.Sprintf("section %d (%q) unaligned in file: %#x+%#x", i, s.Name, s.Ptr, s.Raw)
		}
		if int64(s.Ptr)+int64(s.Raw) > int64(len(p.b)) {
			return fmt.Sprintf("section %d (%q) %#x+%#x is beyond the end of file %#x", i, s.Name, s.Ptr, s.Raw, len(p.b))
		}
		if int(s.Ptr) < p.hdrEnd {
			return fmt.Sprintf("section %d (%q) at %#x overlaps the headers in file", i, s.Name, s.Ptr)
		}
		for j := range p.secs {
			q := &p.secs[j]
			if j != i && q.inFile() && s.Ptr < q.Ptr+q.Raw && q.Ptr < s.Ptr+s.Raw {
				return fmt.Sprintf("sections %d and %d overlap in file", j, i)
			}
		}
	}
	if p.hdrEnd > int(p.sizeHdr) {
		return fmt.Sprintf("the section table ends at %#x, beyond the headers' size %#x", p.hdrEnd, p.sizeHdr)
	}
	if si := le.Uint32(p.oh[56:]); si != rnd(maxV, p.SA) {
		return fmt.Sprintf("size of image is %#x, sections end at %#x", si, rnd(maxV, p.SA))
	}
	return ""
}

// comparePatched checks that dst is src with nothing but its resources replaced.
// removeSig tells that the signature was to be removed.
func comparePatched(src, dst *PE, removeSig bool) string {
	if src.lf != dst.lf || !bytes.Equal(src.b[:src.lf+4], dst.b[:dst.lf+4]) {
		return "the DOS stub changed"
	}
	ns, nd := len(src.secs), len(dst.secs)
	if nd != ns && nd != ns+1 {
		return fmt.Sprintf("%d sections became %d", ns, nd)
	}
	// file header
	a, b := append([]byte{}, src.fh...), append([]byte{}, dst.fh...)
	for _, h := range [][]byte{a, b} {
		le.PutUint16(h[2:], 0)
		le.PutUint32(h[8:], 0)
	}
	if !bytes.Equal(a, b) {
		return "the file header changed"
	}
	// optional header
	a, b = append([]byte{}, src.oh[:src.dd]...), append([]byte{}, dst.oh[:min(dst.dd, len(dst.oh))]...)
	for _, h := range [][]byte{a, b} {
		le.PutUint32(h[8:], 0)
		le.PutUint32(h[56:], 0)
		le.PutUint32(h[64:], 0)
	}
	if nd > ns && dst.hdrEnd > int(src.sizeHdr) && int(dst.sizeHdr) <= dst.first {
		// the headers had to grow
		le.PutUint32(a[60:], dst.sizeHdr)
	}
	if !bytes.Equal(a, b) {
		return "the optional header changed"
	}
	if w := dst.wellFormed(src.secs); w != "" {
		return w
	}
	// resource section
	sr, dr := src.rsrcSec(), dst.rsrcSec()
	if dr < 0 {
		return "the resource directory entry points to no section"
	}
	if dst.secs[dr].Ch != 0x40000040 && !(sr == dr && dst.secs[dr].Ch == src.secs[sr].Ch) {
		return fmt.Sprintf("resource section with characteristics %#x", dst.secs[dr].Ch)
	}
	inPlace := nd == ns
	if inPlace && sr != dr {
		return "another section became the resource section"
	}
	if !inPlace && dr != nd-1 {
		return "the new section is not the resource section"
	}
	if d := dst.dir(dirRes); d[1] == 0 || d[1] > rnd(dst.secs[dr].mem(), dst.SA) || d[1] > dst.secs[dr].Raw {
		return fmt.Sprintf("resource directory of %#x bytes in a section of %#x/%#x bytes", d[1], dst.secs[dr].VS, dst.secs[dr].Raw)
	}
	if dst.secs[dr].VS > dst.secs[dr].Raw {
		return fmt.Sprintf("resource section is longer in memory (%#x) than in file (%#x)", dst.secs[dr].VS, dst.secs[dr].Raw)
	}
	want := int64(le.Uint32(src.oh[8:])) + int64(dst.secs[dr].Raw)
	if inPlace {
		want -= int64(src.secs[sr].Raw)
	}
	if got := int64(le.Uint32(dst.oh[8:])); uint32(got) != uint32(want) {
		return fmt.Sprintf("size of initialized data is %#x, expected %#x", got, want)
	}
	// other sections
	for i := 0; i < ns; i++ {
		s, d := src.secs[i], dst.secs[i]
		if i == sr {
			continue
		}
		if s.Name != d.Name || s.VS != d.VS || s.Raw != d.Raw || s.Ch != d.Ch || s.Rest != d.Rest {
			return fmt.Sprintf("the header of section %d (%q) changed", i, s.Name)
		}
		if s.VA != d.VA && (src.dir(dirReloc)[0] == 0 || s.VA != src.dir(dirReloc)[0]) {
			return fmt.Sprintf("section %d (%q), which is not the relocation section, moved from %#x to %#x in memory", i, s.Name, s.VA, d.VA)
		}
		if s.inFile() != d.inFile() {
			return fmt.Sprintf("section %d (%q) lost or gained file contents", i, s.Name)
		}
		if !bytes.Equal(src.raw(i), dst.raw(i)) {
			return fmt.Sprintf("the contents of section %d (%q) changed", i, s.Name)
		}
	}
	// data directories
	if len(src.dirs) != len(dst.dirs) {
		return "the number of data directories changed"
	}
	for i := range src.dirs {
		if i == dirRes || i == dirSec {
			continue
		}
		s, d := src.dirs[i], dst.dirs[i]
		if i == dirBound && !inPlace && int(s[0]) < dst.hdrEnd && s[0] > 0 {
			// the header of the new section takes its place, the loader can do without it
			if d != [2]uint32{} {
				return "bound imports are overwritten but still referred to"
			}
			continue
		}
		if s[1] != d[1] {
			return fmt.Sprintf("the size of data directory %d changed", i)
		}
		if s[0] == 0 {
			if d[0] != 0 {
				return fmt.Sprintf("data directory %d appeared", i)
			}
			continue
		}
		ss, so := src.locate(s[0])
		ds, do := dst.locate(d[0])
		if ss == sr && ss >= 0 {
			continue // pointed into the old resources
		}
		if ss != ds || so != do {
			return fmt.Sprintf("data directory %d pointed to section %d+%#x and now points to section %d+%#x", i, ss, so, ds, do)
		}
		if ss == -1 && int(s[0])+int(s[1]) <= int(src.sizeHdr) {
			if !bytes.Equal(src.b[s[0]:s[0]+s[1]], dst.b[d[0]:d[0]+d[1]]) {
				return fmt.Sprintf("data directory %d: its contents in the headers changed", i)
			}
		}
	}
	// appended data
	tail := src.b[src.dataEnd:]
	sd := src.dir(dirSec)
	sigAtEnd := sd[0] > 0 && int(sd[0])+int(sd[1]) == len(src.b)
	if removeSig && sigAtEnd {
		tail = src.b[src.dataEnd:sd[0]]
	}
	if got := dst.b[dst.dataEnd:]; !bytes.Equal(got, tail) {
		return fmt.Sprintf("%d bytes of appended data became %d bytes, or changed", len(tail), len(got))
	}
	// symbol table
	if sp := int(src.symPtr); sp != 0 {
		dp := int(dst.symPtr)
		switch {
		case sp >= src.dataEnd:
			if dp-dst.dataEnd != sp-src.dataEnd {
				return fmt.Sprintf("the symbol table was at %#x, %d bytes into the appended data, it is now said to be at %#x", sp, sp-src.dataEnd, dp)
			}
		default:
			for i := range src.secs {
				s := &src.secs[i]
				if i != sr && s.inFile() && sp >= int(s.Ptr) && sp < int(s.Ptr+s.Raw) {
					if dp-int(dst.secs[i].Ptr) != sp-int(s.Ptr) {
						return fmt.Sprintf("the symbol table of section %d is now said to be at %#x", i, dp)
					}
				}
			}
		}
	} else if dst.symPtr != 0 {
		return "a symbol table appeared"
	}
	return ""
}

// checkSignature decides what must have become of a signature.
func checkSignature(src, dst *PE, remove bool) string {
	s, d := src.dir(dirSec), dst.dir(dirSec)
	if s[0] == 0 {
		if d[0] != 0 {
			return "a signature entry appeared"
		}
		return ""
	}
	if remove {
		if d[0] != 0 || d[1] != 0 {
			return "the signature entry is still there"
		}
		return ""
	}
	if d[1] != s[1] {
		return "the size of the signature changed"
	}
	if int(d[0])+int(d[1]) > len(dst.b) {
		return "the signature entry points beyond the end of the file"
	}
	if !bytes.Equal(src.b[s[0]:s[0]+s[1]], dst.b[d[0]:d[0]+d[1]]) {
		return fmt.Sprintf("the signature entry points to %#x, where the signature is not", d[0])
	}
	return ""
}

func (p *PE) checksum() uint32 { return le.Uint32(p.b[p.sumOff:]) }

// rsrcModel reads the resources of an executable.
func (p *PE) rsrcModel() (*parsedRsrc, error) {
	i := p.rsrcSec()
	if i < 0 {
		return nil, errors.New("no resource section")
	}
	if !p.secs[i].inFile() || int64(p.secs[i].Ptr)+int64(p.secs[i].Raw) > int64(len(p.b)) {
		return nil, errors.New("resource section is not in the file")
	}
	return parseRsrc(p.raw(i), p.secs[i].VA)
}
