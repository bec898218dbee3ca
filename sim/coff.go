package main

// A small linker: checks a COFF object and relocates its resource section.

import (
	"bytes"
	"fmt"
)

var archMachine = map[string]uint16{"386": 0x14c, "amd64": 0x8664, "arm": 0x1c4, "arm64": 0xaa64}
var archReloc = map[string]uint16{"386": 7, "amd64": 3, "arm": 2, "arm64": 2}

// linkObject returns the problem found in the object, or "".
func linkObject(b []byte, arch string, want *MSet, base uint32) string {
	if len(b) < 60 {
		return fmt.Sprintf("object of %d bytes", len(b))
	}
	if m := le.Uint16(b); m != archMachine[arch] {
		return fmt.Sprintf("machine %#x for %s", m, arch)
	}
	if n := le.Uint16(b[2:]); n != 1 {
		return fmt.Sprintf("%d sections", n)
	}
	symtab, nsym := int(le.Uint32(b[8:])), int(le.Uint32(b[12:]))
	if oh := le.Uint16(b[16:]); oh != 0 {
		return "object has an optional header"
	}
	s := b[20:60]
	if string(bytes.TrimRight(s[:8], "\x00")) != ".rsrc" {
		return fmt.Sprintf("section name %q", s[:8])
	}
	size, ptr := int(le.Uint32(s[16:])), int(le.Uint32(s[20:]))
	relptr, nrel := int(le.Uint32(s[24:])), int(le.Uint16(s[32:]))
	ch := le.Uint32(s[36:])
	if ch&^0x01000000&^0x00F00000 != 0x40000040 {
		return fmt.Sprintf("section characteristics %#x", ch)
	}
	if ptr < 60 || ptr+size > len(b) {
		return fmt.Sprintf("section data %#x+%#x is out of the file (%#x)", ptr, size, len(b))
	}
	first := 0
	if ch&0x01000000 != 0 {
		if nrel != 0xFFFF || relptr+10 > len(b) {
			return "bad extended relocation count"
		}
		nrel = int(le.Uint32(b[relptr:]))
		first = 1
	}
	if relptr < ptr+size || relptr+10*nrel > len(b) {
		return fmt.Sprintf("%d relocations at %#x overlap or are out of the file", nrel, relptr)
	}
	if symtab < relptr+10*nrel {
		return fmt.Sprintf("symbol table at %#x overlaps relocations", symtab)
	}
	if nsym < 1 || symtab+18*nsym+4 > len(b) {
		return fmt.Sprintf("symbol table %#x with %d symbols is out of the file", symtab, nsym)
	}
	if st := int(le.Uint32(b[symtab+18*nsym:])); st < 4 || symtab+18*nsym+st != len(b) {
		return fmt.Sprintf("string table of %d bytes does not end the file", st)
	}
	sec := append([]byte{}, b[ptr:ptr+size]...)
	applied := map[int]bool{}
	for i := first; i < nrel; i++ {
		r := b[relptr+10*i:]
		va, si, ty := int(le.Uint32(r)), int(le.Uint32(r[4:])), le.Uint16(r[8:])
		if ty != archReloc[arch] {
			return fmt.Sprintf("relocation type %#x for %s", ty, arch)
		}
		if si >= nsym {
			return fmt.Sprintf("relocation refers to symbol %d of %d", si, nsym)
		}
		sym := b[symtab+18*si:]
		if le.Uint32(sym[8:]) != 0 || le.Uint16(sym[12:]) != 1 || sym[16] != 3 {
			return "relocation symbol is not the start of the section"
		}
		if string(bytes.TrimRight(sym[:8], "\x00")) != ".rsrc" {
			return fmt.Sprintf("symbol name %q", sym[:8])
		}
		if va+4 > len(sec) {
			return fmt.Sprintf("relocation at %#x is out of the section", va)
		}
		if applied[va] {
			return fmt.Sprintf("address %#x is relocated twice", va)
		}
		applied[va] = true
		le.PutUint32(sec[va:], le.Uint32(sec[va:])+base)
	}
	p, err := parseRsrc(sec, base)
	if err != nil {
		return "linked section: " + err.Error()
	}
	if d := want.diff(p.set, "the set", "the linked section"); d != "" {
		return d
	}
	if len(p.entries) != len(applied) {
		return fmt.Sprintf("%d relocations for %d resources", len(applied), len(p.entries))
	}
	for _, e := range p.entries {
		if !applied[e] {
			return fmt.Sprintf("data entry at %#x is not relocated", e)
		}
	}
	for _, k := range want.keys() {
		if o := p.dataOffs[k][0]; o%4 != 0 {
			return fmt.Sprintf("data of %v at unaligned offset %#x", k, o)
		}
	}
	return p.overlaps()
}
