From 755b9c03a2583ae5101308b2232bb624b10ee6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 01/32] fix: order languages again when the order of the
 resource type was cached

Adding or deleting one language of an existing resource after a walk or a
save left the cached order of that resource empty: walks skipped it and the
written directory announced entries it did not contain.
---
 rsrc.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index daf302f..8767c27 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -244,16 +244,18 @@ func (te *typeEntry) size() int {
 // order orders ids and names following the specification, and saves them in orderedKeys.
 // It calls resourceEntry.order() too, for each resource entry it owns.
 func (te *typeEntry) order() {
+	// Order LCIDs in every resource
+	for _, re := range te.resources {
+		re.order()
+	}
+
 	if te.orderedKeys != nil {
 		return
 	}
 
 	te.orderedKeys = make([]Identifier, 0, len(te.resources))
-	for ident, re := range te.resources {
+	for ident := range te.resources {
 		te.orderedKeys = append(te.orderedKeys, ident)
-
-		// Order LCIDs in every resource
-		re.order()
 	}
 
 	// Names in case sensitive ascending order, then IDs in ascending order
-- 
2.43.0


From 3271368c2abacb175bf0657f7b169857cc0e4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 02/32] fix: report a source error met while computing the
 checksum

The error was ignored, so that a short-lived read error made the save
succeed with a wrong checksum.
---
 exe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 9422d01..4b0d729 100644
--- a/exe.go
+++ b/exe.go
@@ -263,7 +263,10 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		err = pew.writeEXE(&c)
+		if err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
-- 
2.43.0


From cc6e1dd127008b58e1f6d827d986eb7742958e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 03/32] fix: write padding instead of seeking over it

Seeking failed silently on destinations which cannot seek, such as a pipe
opened as a file, and kept old bytes on destinations which hold some.
---
 exe.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/exe.go b/exe.go
index 4b0d729..a13ea95 100644
--- a/exe.go
+++ b/exe.go
@@ -562,16 +562,6 @@ func writeBlank(w io.Writer, length int64) error {
 		return nil
 	}
 
-	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
-		var b [1]byte
-		_, err := w.Write(b[:])
-		if err != nil {
-			return err
-		}
-		return nil
-	}
-
 	const bufLen = 0x100
 	var b [bufLen]byte
 	for length > 0 {
-- 
2.43.0


From aa2bf06df2e68f9960da3e82a7f6d95d6f5dd247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 04/32] fix: report failures to seek in the source executable

They were ignored: a failing seek could make an executable look unsigned
or be read from a wrong place.
---
 exe.go    | 53 ++++++++++++++++++++++++++++++++++++++++-------------
 winres.go | 15 ++++++++++++---
 2 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/exe.go b/exe.go
index a13ea95..fed4a65 100644
--- a/exe.go
+++ b/exe.go
@@ -197,9 +197,15 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	_, err := r.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	fileSize := getSeekerSize(r)
+	fileSize, err := getSeekerSize(r)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	h, err := readPEHeaders(r)
 	if err != nil {
@@ -226,7 +232,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -252,7 +261,10 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	_, err := src.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -282,7 +294,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	pew.src.r = src
 	pew.rsrcData = rsrcData
 
-	pew.src.fileSize = getSeekerSize(src)
+	pew.src.fileSize, err = getSeekerSize(src)
+	if err != nil {
+		return nil, err
+	}
 
 	pew.h, err = readPEHeaders(src)
 	if err != nil {
@@ -603,7 +618,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
@@ -665,18 +683,27 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	return &h, nil
 }
 
-func getSeekerSize(r io.ReadSeeker) int64 {
+func getSeekerSize(r io.ReadSeeker) (int64, error) {
 	switch r := r.(type) {
 	case *os.File:
 		stat, err := r.Stat()
 		if err == nil {
-			return stat.Size()
+			return stat.Size(), nil
 		}
 	case interface{ Size() int64 }:
-		return r.Size()
+		return r.Size(), nil
+	}
+	pos, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
+	}
+	_, err = r.Seek(pos, io.SeekStart)
+	if err != nil {
+		return 0, err
 	}
-	pos, _ := r.Seek(0, io.SeekCurrent)
-	size, _ := r.Seek(0, io.SeekEnd)
-	r.Seek(pos, io.SeekStart)
-	return size
+	return size, nil
 }
diff --git a/winres.go b/winres.go
index dea9174..8c9f850 100644
--- a/winres.go
+++ b/winres.go
@@ -346,12 +346,21 @@ func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOp
 
 // IsSignedEXE helps knowing if an exe file is signed before encountering an error with WriteToEXE.
 func IsSignedEXE(exe io.ReadSeeker) (bool, error) {
-	pos, _ := exe.Seek(0, io.SeekCurrent)
-	exe.Seek(0, io.SeekStart)
+	pos, err := exe.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return false, err
+	}
+	_, err = exe.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
 	h, err := readPEHeaders(exe)
-	exe.Seek(pos, io.SeekStart)
+	_, errSeek := exe.Seek(pos, io.SeekStart)
 	if err != nil {
 		return false, err
 	}
+	if errSeek != nil {
+		return false, errSeek
+	}
 	return len(h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0, nil
 }
-- 
2.43.0


From b05b3fe1fa97e9898db15171aefb662d36b782eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 05/32] fix: do not crash when .rsrc is not last and there are
 no relocations

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index fed4a65..d5a22c1 100644
--- a/exe.go
+++ b/exe.go
@@ -392,7 +392,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From c6901a9a9aa0003fd9f750db6abdf4be3f54f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 06/32] fix: check there is room for a new section when .rsrc
 is abandoned

The check came before the decision to abandon the existing section, so that
the new section header could overwrite the first section.
---
 exe.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index d5a22c1..6f48d0f 100644
--- a/exe.go
+++ b/exe.go
@@ -328,9 +328,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-		return nil, errors.New(errNoRoomForRSRC)
-	}
 
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
@@ -338,6 +335,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr = nil
 	}
 
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
+
 	pew.updateHeaders()
 
 	return &pew, nil
-- 
2.43.0


From 0d1862259e7208aa7eefac0634794a1997d24f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 07/32] fix: count a new section once in the size of
 initialized data

---
 exe.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/exe.go b/exe.go
index 6f48d0f..44b4058 100644
--- a/exe.go
+++ b/exe.go
@@ -432,7 +432,6 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
 		lastSection = pew.rsrcHdr
-		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
 		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
-- 
2.43.0


From 836079e14432bf790197f35dc8198851081f9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 08/32] fix: keep the data which follows the sections when
 adding one

Without a .rsrc section this data was dropped, and when the existing section
was abandoned, the sections after it were written twice.
---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 44b4058..c00d7fc 100644
--- a/exe.go
+++ b/exe.go
@@ -346,7 +346,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
-	pew.src.rsrcEnd = pew.src.fileSize
 
 	for i := range pew.h.sections {
 		if pew.h.sections[i].VirtualAddress == pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress {
@@ -432,6 +431,8 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
 		lastSection = pew.rsrcHdr
+		// Whatever comes after the original sections comes after the new one
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
 		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
-- 
2.43.0


From b5c58bf75b07e1d2da74cd72a278ecae9de7252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 09/32] fix: re-address the symbol table and the signature
 together with the data after .rsrc

The pointer to the symbol table was never updated, and the signature entry
was moved by the distance to the section that is last in memory, which may
have no contents in the file.
---
 exe.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index c00d7fc..87f1439 100644
--- a/exe.go
+++ b/exe.go
@@ -453,8 +453,13 @@ func (pew *peWriter) updateHeaders() {
 		}
 	}
 
+	// Follow the data which comes after .rsrc in the file
+	remainderDelta := pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - uint32(pew.src.rsrcEnd)
 	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {
-		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += lastSection.PointerToRawData + lastSection.SizeOfRawData - pew.src.dataEnd
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += remainderDelta
+	}
+	if int64(pew.h.file.PointerToSymbolTable) >= pew.src.rsrcEnd {
+		pew.h.file.PointerToSymbolTable += remainderDelta
 	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
-- 
2.43.0


From 09c9544793350e225352211c566a079912c2eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 10/32] fix: ignore sections without contents when looking for
 the first one in the file

An empty section whose file offset is zero made the whole file be copied
once more after the headers.
---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 87f1439..af1dc4e 100644
--- a/exe.go
+++ b/exe.go
@@ -372,6 +372,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if pew.h.sections[i].SizeOfRawData == 0 || pew.h.sections[i].PointerToRawData == 0 {
+			// Sections without contents do not either.
+			continue
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-- 
2.43.0


From 738abac77889b4d2e746d847b933f3eafaf5264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 11/32] fix: only pad .rsrc in place when that keeps its size
 in memory

When the sizes in file and in memory did not round to the same number of
pages, the sections after .rsrc were shifted in memory although they may
not be.
---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index af1dc4e..a9b1607 100644
--- a/exe.go
+++ b/exe.go
@@ -402,7 +402,8 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) {
+	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
-- 
2.43.0


From bcc3235809b84dd870669cc464da759d5f69291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 12/32] fix: keep what is between the headers and the first
 section

This area was cleared, while it may hold bound imports. Their entry is
dropped when the header of a new section has to overwrite them.
---
 exe.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index a9b1607..c8f9d8f 100644
--- a/exe.go
+++ b/exe.go
@@ -435,6 +435,7 @@ func (pew *peWriter) updateHeaders() {
 		pew.rsrcHdr = &pew.h.sections[len(pew.h.sections)-1]
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
+		pew.dropBoundImports()
 		lastSection = pew.rsrcHdr
 		// Whatever comes after the original sections comes after the new one
 		pew.src.rsrcEnd = int64(pew.src.dataEnd)
@@ -480,6 +481,16 @@ func (pew *peWriter) updateHeaders() {
 	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)
 }
 
+// dropBoundImports removes the entry of bound imports when the headers overwrite them.
+//
+// They are usually found right after section headers. The loader can do without them.
+func (pew *peWriter) dropBoundImports() {
+	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT &&
+		int64(pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT].VirtualAddress) < pew.h.length {
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT] = pe.DataDirectory{}
+	}
+}
+
 func (pew *peWriter) roundRaw(p uint32) uint32 {
 	a := pew.h.opt.getFileAlignment()
 	x := p + a - 1
@@ -537,11 +548,13 @@ func (pew *peWriter) writeEXE(w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	err = writeBlank(w, int64(pew.src.dataOffset)-pew.h.length)
+	_, err = pew.src.r.Seek(pew.h.length, io.SeekStart)
 	if err != nil {
 		return err
 	}
-	_, err = pew.src.r.Seek(int64(pew.src.dataOffset), io.SeekStart)
+
+	// Whatever is between the headers and the sections (bound imports for example)
+	_, err = io.CopyN(w, pew.src.r, int64(pew.src.dataOffset)-pew.h.length)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5c28421e8c5827bb74329847321f4cc452a3511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 13/32] fix: make sure the headers can hold the header of a new
 section

The section table could end beyond SizeOfHeaders, or overlap the first
section in memory, when the sections start farther in the file.
---
 exe.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index c8f9d8f..0d99a3b 100644
--- a/exe.go
+++ b/exe.go
@@ -59,11 +59,13 @@ type peOptionalHeader interface {
 	getSizeOfInitializedData() uint32
 	getSectionAlignment() uint32
 	getFileAlignment() uint32
+	getSizeOfHeaders() uint32
 	getNumberOfRvaAndSizes() uint32
 	getCheckSum() uint32
 
 	setSizeOfInitializedData(uint32)
 	setSizeOfImage(uint32)
+	setSizeOfHeaders(uint32)
 	setCheckSum(uint32)
 }
 
@@ -112,6 +114,10 @@ func (h *peOptionalHeader32) getFileAlignment() uint32 {
 	return h.FileAlignment
 }
 
+func (h *peOptionalHeader32) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader32) getNumberOfRvaAndSizes() uint32 {
 	return h.NumberOfRvaAndSizes
 }
@@ -128,6 +134,10 @@ func (h *peOptionalHeader32) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader32) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader32) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -176,6 +186,10 @@ func (h *peOptionalHeader64) getFileAlignment() uint32 {
 	return h.FileAlignment
 }
 
+func (h *peOptionalHeader64) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader64) getNumberOfRvaAndSizes() uint32 {
 	return h.NumberOfRvaAndSizes
 }
@@ -192,6 +206,10 @@ func (h *peOptionalHeader64) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader64) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader64) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -255,6 +273,7 @@ type peWriter struct {
 		sigSize    int64 // size of a code signature we'd want to skip (only if it is at the end of the file)
 		dataOffset uint32
 		dataEnd    uint32
+		virtStart  uint32
 		virtEnd    uint32
 		rsrcEnd    int64
 	}
@@ -335,7 +354,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr = nil
 	}
 
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || int64(pew.src.virtStart) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
 
@@ -363,7 +382,11 @@ func (pew *peWriter) fillSectionsInfo() error {
 		}
 	}
 
+	pew.src.virtStart = 0xFFFFFFFF
 	for i := range pew.h.sections {
+		if pew.h.sections[i].VirtualAddress < pew.src.virtStart {
+			pew.src.virtStart = pew.h.sections[i].VirtualAddress
+		}
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
@@ -435,6 +458,9 @@ func (pew *peWriter) updateHeaders() {
 		pew.rsrcHdr = &pew.h.sections[len(pew.h.sections)-1]
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
+		if pew.h.length > int64(pew.h.opt.getSizeOfHeaders()) {
+			pew.h.opt.setSizeOfHeaders(pew.roundRaw(uint32(pew.h.length)))
+		}
 		pew.dropBoundImports()
 		lastSection = pew.rsrcHdr
 		// Whatever comes after the original sections comes after the new one
-- 
2.43.0


From a8b4fbeb5a5003fa162fefd3d0e36fdbb9d92cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 14/32] fix: do not look for the first section at 4 GB when no
 section has contents

---
 exe.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/exe.go b/exe.go
index 0d99a3b..dff5ac9 100644
--- a/exe.go
+++ b/exe.go
@@ -406,6 +406,14 @@ func (pew *peWriter) fillSectionsInfo() error {
 			pew.src.dataEnd = pew.h.sections[i].PointerToRawData + pew.h.sections[i].SizeOfRawData
 		}
 	}
+	if pew.src.dataEnd == 0 {
+		// No section has contents, there is nothing to copy but the headers.
+		pew.src.dataEnd = pew.roundRaw(pew.h.opt.getSizeOfHeaders())
+		pew.src.dataOffset = pew.src.dataEnd
+	}
+	if pew.src.virtEnd == 0 {
+		pew.src.virtEnd = pew.h.opt.getSizeOfHeaders()
+	}
 	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)
 
 	return nil
-- 
2.43.0


From c923d8965864a8547547d1c1f74c61f5f16209d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 15/32] fix: make 32 bits cursors from opaque images

The encoder drops the alpha channel of opaque images. The cursor was said to
have 32 bits per pixel, but it had 24 and lacked the AND mask this requires.
---
 cursor.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..bc5a8d8 100644
--- a/cursor.go
+++ b/cursor.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"image"
+	"image/draw"
 	"io"
 	"sort"
 
@@ -278,7 +279,7 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	// PNG icons, on the other hand, are very common.
 	buf := &bytes.Buffer{}
 	curImg := imageInSquareNRGBA(img, false)
-	if err := bmpEncode(buf, curImg); err != nil {
+	if err := encodeBMP32(buf, curImg); err != nil {
 		return err
 	}
 
@@ -307,6 +308,31 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	return nil
 }
 
+// encodeBMP32 encodes a square image as a 32 bits BMP file.
+//
+// bmp.Encode would drop the alpha channel of an opaque image and make a 24 bits file.
+func encodeBMP32(buf *bytes.Buffer, img image.Image) error {
+	m, ok := img.(*image.NRGBA)
+	if !ok || !m.Opaque() {
+		return bmpEncode(buf, img)
+	}
+
+	size := m.Bounds().Size()
+	translucent := image.NewNRGBA(image.Rectangle{Max: size})
+	draw.Draw(translucent, translucent.Bounds(), m, m.Bounds().Min, draw.Src)
+	// The first pixel in the file is the leftmost of the last row.
+	translucent.Pix[translucent.PixOffset(0, size.Y-1)+3] = 0
+	if err := bmpEncode(buf, translucent); err != nil {
+		return err
+	}
+	buf.Bytes()[bmpHeaderSize+3] = 0xFF
+
+	return nil
+}
+
+// bmpHeaderSize is the size of a BMPFILEHEADER followed by a BITMAPINFOHEADER.
+const bmpHeaderSize = 14 + 40
+
 func (cursor *Cursor) order() {
 	sort.SliceStable(cursor.images, func(i, j int) bool {
 		img1, img2 := &cursor.images[i].info, &cursor.images[j].info
-- 
2.43.0


From 47653ef67b07f5f5961e0a4b1f04c7d5ef4ff5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 16/32] fix: read empty strings at the very end of version
 information

---
 version/binary.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..53696e9 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -374,11 +374,14 @@ func readString(data []byte, pos *int) (string, error) {
 }
 
 func readStringWithLength(data []byte, pos *int, length int) (string, error) {
-	data = data[*pos:]
-
 	if length == 0 {
 		return "", nil
 	}
+	if *pos > len(data) {
+		return "", io.ErrUnexpectedEOF
+	}
+	data = data[*pos:]
+
 	if length < 0 || length > len(data)/2 {
 		return "", errors.New(errInvalidStringLength)
 	}
-- 
2.43.0


From 04cce710e82bc27c4afc39bb02b9682f4888e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 17/32] fix: do not crash on empty optional headers or 65535
 sections

---
 exe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index dff5ac9..8d94128 100644
--- a/exe.go
+++ b/exe.go
@@ -700,7 +700,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
@@ -727,7 +727,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bb917dbc308b1fee69a8df82469462621f551ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 18/32] fix: refuse executables whose sections cannot be laid
 out

---
 errors.go | 19 +++++++++--------
 exe.go    | 61 +++++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/errors.go b/errors.go
index 7f501c9..a44b626 100644
--- a/errors.go
+++ b/errors.go
@@ -24,15 +24,16 @@ const (
 	errInvalidResDir        = "invalid resource directory"
 	errDataEntryOutOfBounds = "data entry out of bounds"
 
-	errNotPEImage    = "not a valid PE image"
-	errSignedPE      = "cannot modify a signed PE image"
-	errUnknownPE     = "unknown PE format"
-	errNoRSRC        = "image doesn't have a resource directory" // This is when the data directory entry is zero
-	errRSRCNotFound  = "resource section not found"              // This is when the data directory entry is not zero
-	errSectionTooFar = "invalid section header points too far"
-	errNoRoomForRSRC = "not enough room to add .rsrc section header"
-	errRSRCTwice     = "found resource section twice"
-	errRelocTwice    = "found reloc section twice"
+	errNotPEImage       = "not a valid PE image"
+	errSignedPE         = "cannot modify a signed PE image"
+	errUnknownPE        = "unknown PE format"
+	errNoRSRC           = "image doesn't have a resource directory" // This is when the data directory entry is zero
+	errRSRCNotFound     = "resource section not found"              // This is when the data directory entry is not zero
+	errSectionTooFar    = "invalid section header points too far"
+	errSectionInHeaders = "invalid section header points into the headers"
+	errNoRoomForRSRC    = "not enough room to add .rsrc section header"
+	errRSRCTwice        = "found resource section twice"
+	errRelocTwice       = "found reloc section twice"
 
 	errInvalidVersion      = "invalid version number"
 	errUnknownSupportedOS  = "unknown minimum-os value"
diff --git a/exe.go b/exe.go
index 8d94128..d9f8da1 100644
--- a/exe.go
+++ b/exe.go
@@ -339,6 +339,11 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		}
 	}
 
+	err = pew.checkLayout()
+	if err != nil {
+		return nil, err
+	}
+
 	err = pew.fillSectionsInfo()
 	if err != nil {
 		return nil, err
@@ -348,6 +353,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, io.ErrUnexpectedEOF
 	}
 
+	if int64(pew.src.dataOffset) < pew.h.length {
+		return nil, errors.New(errSectionInHeaders)
+	}
+
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
@@ -363,6 +372,50 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	return &pew, nil
 }
 
+// checkLayout makes sure that addresses and sizes found in the headers are consistent with the file,
+// and that adding resources cannot make them overflow.
+func (pew *peWriter) checkLayout() error {
+	const (
+		maxFileAlignment = 0x10000
+		maxAddress       = 0xFFFFFFFF
+	)
+
+	fileAlignment := int64(pew.h.opt.getFileAlignment())
+	sectionAlignment := int64(pew.h.opt.getSectionAlignment())
+	if fileAlignment == 0 || fileAlignment > maxFileAlignment || sectionAlignment == 0 {
+		return errors.New(errNotPEImage)
+	}
+
+	// The .rsrc section may be rounded, and what precedes it as well.
+	rawRoom := maxAddress - int64(len(pew.rsrcData)) - 2*fileAlignment
+	virtRoom := maxAddress - int64(len(pew.rsrcData)) - 2*sectionAlignment
+
+	if int64(pew.h.opt.getSizeOfHeaders()) > rawRoom || int64(pew.h.opt.getSizeOfHeaders()) > virtRoom {
+		return errors.New(errSectionTooFar)
+	}
+
+	for i := range pew.h.sections {
+		sec := &pew.h.sections[i]
+		if int64(sec.VirtualAddress)+int64(sec.VirtualSize) > virtRoom {
+			return errors.New(errSectionTooFar)
+		}
+		if !hasContents(sec) {
+			continue
+		}
+		if int64(sec.PointerToRawData)+int64(sec.SizeOfRawData) > rawRoom {
+			return errors.New(errSectionTooFar)
+		}
+	}
+
+	return nil
+}
+
+// hasContents tells if a section occupies data in the file.
+func hasContents(sec *pe.SectionHeader32) bool {
+	return sec.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA == 0 &&
+		sec.SizeOfRawData != 0 && sec.PointerToRawData != 0
+}
+
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
 
@@ -390,12 +443,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
+		if !hasContents(&pew.h.sections[i]) {
 			// Exclude sections containing uninitialized data from file offset
 			// calculations, as they do not occupy any data in the file.
-			continue
-		}
-		if pew.h.sections[i].SizeOfRawData == 0 || pew.h.sections[i].PointerToRawData == 0 {
 			// Sections without contents do not either.
 			continue
 		}
@@ -423,6 +473,9 @@ func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
 	}
+	if !hasContents(pew.rsrcHdr) {
+		return true
+	}
 	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + pew.rsrcHdr.VirtualSize)
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
-- 
2.43.0


From 8a3060148a9ca020ca1abe39b94eb8006c47a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 19/32] fix: take SizeOfRawData as the size in memory of
 sections which have no VirtualSize

---
 exe.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/exe.go b/exe.go
index d9f8da1..4358b94 100644
--- a/exe.go
+++ b/exe.go
@@ -396,7 +396,7 @@ func (pew *peWriter) checkLayout() error {
 
 	for i := range pew.h.sections {
 		sec := &pew.h.sections[i]
-		if int64(sec.VirtualAddress)+int64(sec.VirtualSize) > virtRoom {
+		if int64(sec.VirtualAddress)+int64(virtualSize(sec)) > virtRoom {
 			return errors.New(errSectionTooFar)
 		}
 		if !hasContents(sec) {
@@ -416,6 +416,16 @@ func hasContents(sec *pe.SectionHeader32) bool {
 		sec.SizeOfRawData != 0 && sec.PointerToRawData != 0
 }
 
+// virtualSize returns the size of a section in memory.
+//
+// Some linkers leave VirtualSize empty, the loader then relies on SizeOfRawData.
+func virtualSize(sec *pe.SectionHeader32) uint32 {
+	if sec.VirtualSize == 0 {
+		return sec.SizeOfRawData
+	}
+	return sec.VirtualSize
+}
+
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
 
@@ -440,8 +450,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress < pew.src.virtStart {
 			pew.src.virtStart = pew.h.sections[i].VirtualAddress
 		}
-		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
-			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
+		if pew.h.sections[i].VirtualAddress+virtualSize(&pew.h.sections[i]) > pew.src.virtEnd {
+			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + virtualSize(&pew.h.sections[i])
 		}
 		if !hasContents(&pew.h.sections[i]) {
 			// Exclude sections containing uninitialized data from file offset
@@ -476,18 +486,18 @@ func (pew *peWriter) requiresNewSection() bool {
 	if !hasContents(pew.rsrcHdr) {
 		return true
 	}
-	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + pew.rsrcHdr.VirtualSize)
+	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + virtualSize(pew.rsrcHdr))
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
 	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
-		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
+		pew.roundVirt(pew.relocHdr.VirtualAddress+virtualSize(pew.relocHdr)) >= pew.src.virtEnd {
 		return false
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
 	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
-		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(virtualSize(pew.rsrcHdr)) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
@@ -528,7 +538,7 @@ func (pew *peWriter) updateHeaders() {
 		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
-		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
+		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(virtualSize(pew.rsrcHdr))
 		rawDelta := pew.roundRaw(rsrcLen) - pew.roundRaw(pew.rsrcHdr.SizeOfRawData)
 		pew.rsrcHdr.VirtualSize = rsrcLen
 		pew.rsrcHdr.SizeOfRawData = pew.roundRaw(rsrcLen)
@@ -564,7 +574,7 @@ func (pew *peWriter) updateHeaders() {
 	}
 
 	pew.h.opt.setCheckSum(0)
-	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(lastSection.VirtualSize))
+	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(virtualSize(lastSection)))
 	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)
 }
 
-- 
2.43.0


From 7cb61ea1ee9f7ca741d22e211636751f46f8c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 20/32] fix: keep data appended right after a .rsrc section
 whose size is not rounded

---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 4358b94..496195d 100644
--- a/exe.go
+++ b/exe.go
@@ -466,6 +466,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 			pew.src.dataEnd = pew.h.sections[i].PointerToRawData + pew.h.sections[i].SizeOfRawData
 		}
 	}
+	if pew.src.rsrcEnd > int64(pew.src.dataEnd) {
+		// The size of the last section is not always rounded, what is appended to the file may follow at once.
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
 	if pew.src.dataEnd == 0 {
 		// No section has contents, there is nothing to copy but the headers.
 		pew.src.dataEnd = pew.roundRaw(pew.h.opt.getSizeOfHeaders())
-- 
2.43.0


From be7f1c058ad484254d950e046aa09b0cf423ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 21/32] fix: do not crash on truncated cursor images

---
 cursor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cursor.go b/cursor.go
index bc5a8d8..ed9d079 100644
--- a/cursor.go
+++ b/cursor.go
@@ -203,6 +203,9 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			return nil, errors.New(errUnknownImageFormat)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
@@ -347,6 +350,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From 3302e7802692dc5d28e0d45c341bf0d19e5c0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 22/32] fix: count the entries of large resource directories

---
 rsrc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsrc.go b/rsrc.go
index 8767c27..f9b1240 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -505,7 +505,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
-	dir := make([]resourceDirectoryIDEntry, table.NumberOfNameEntries+table.NumberOfIDEntries)
+	dir := make([]resourceDirectoryIDEntry, int(table.NumberOfNameEntries)+int(table.NumberOfIDEntries))
 	err = binaryRead(section, &dir)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 299bfdf57549a07d395a50aa76973d4eda2803af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 23/32] fix: write the actual length of images in ICO files

---
 icon.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/icon.go b/icon.go
index fb634d3..83cb80a 100644
--- a/icon.go
+++ b/icon.go
@@ -116,8 +116,10 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 
 	icon.order()
 	for i := range icon.images {
+		info := icon.images[i].info
+		info.BytesInRes = uint32(len(icon.images[i].image))
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
-			iconInfo:    icon.images[i].info,
+			iconInfo:    info,
 			ImageOffset: uint32(offset),
 		})
 		if err != nil {
-- 
2.43.0


From eb6507602449a5b22d2a6428935c1dc60e4d182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 24/32] fix: do not add images of icons and cursors whose
 identifier is refused

---
 cursor.go | 4 ++++
 icon.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cursor.go b/cursor.go
index ed9d079..53f3941 100644
--- a/cursor.go
+++ b/cursor.go
@@ -151,6 +151,10 @@ func (rs *ResourceSet) SetCursor(resID Identifier, cursor *Cursor) error {
 
 // SetCursorTranslation adds the cursor to a specific language in the resource set.
 func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cursor *Cursor) error {
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, cursorDirHeader{
 		Type:  2,
diff --git a/icon.go b/icon.go
index 83cb80a..bd90b99 100644
--- a/icon.go
+++ b/icon.go
@@ -158,6 +158,10 @@ func (rs *ResourceSet) SetIcon(resID Identifier, icon *Icon) error {
 //  2. First ID in ascending order
 //
 func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon *Icon) error {
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, iconDirHeader{
 		Type:  1,
-- 
2.43.0


From 7fa71e15855e8ec1d0384e03da2faa349ef56b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 25/32] fix: refuse names which are too long to be written

---
 errors.go | 1 +
 id.go     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/errors.go b/errors.go
index a44b626..9d898b9 100644
--- a/errors.go
+++ b/errors.go
@@ -6,6 +6,7 @@ const (
 	errZeroID          = "ordinal identifier must not be zero"
 	errEmptyName       = "string identifier must not be empty"
 	errNameContainsNUL = "string identifier must not contain NUL char"
+	errNameTooLong     = "string identifier must not be longer than 65535 UTF-16 code units"
 
 	errUnknownArch = "unknown architecture"
 
diff --git a/id.go b/id.go
index 191d5dd..d44a3d6 100644
--- a/id.go
+++ b/id.go
@@ -3,8 +3,12 @@ package winres
 import (
 	"errors"
 	"strings"
+	"unicode/utf16"
 )
 
+// maxNameLength is the maximum length of a Name, in UTF-16 code units.
+const maxNameLength = 0xFFFF
+
 // ID is the type of a resource id, or resource type id.
 type ID uint16
 
@@ -40,6 +44,9 @@ func checkIdentifier(ident Identifier) error {
 		if ident == "" {
 			return errors.New(errEmptyName)
 		}
+		if len(utf16.Encode([]rune(ident))) > maxNameLength {
+			return errors.New(errNameTooLong)
+		}
 		if strings.ContainsRune(string(ident), 0) {
 			return errors.New(errNameContainsNUL)
 		}
-- 
2.43.0


From 8b0571b4005f54284890fabc8b5c34cb68f162a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 26/32] fix: count relocations beyond 65535

---
 coff.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/coff.go b/coff.go
index 3259c94..0ebb79c 100644
--- a/coff.go
+++ b/coff.go
@@ -12,6 +12,7 @@ import (
 const (
 	_IMAGE_SCN_MEM_READ             = 0x00000040
 	_IMAGE_SCN_CNT_INITIALIZED_DATA = 0x40000000
+	_IMAGE_SCN_LNK_NRELOC_OVFL      = 0x01000000
 )
 
 const sizeOfReloc = 10
@@ -31,7 +32,15 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	section.PointerToRawData = uint32(binary.Size(file) + binary.Size(section))
 	section.SizeOfRawData = uint32(r.fullSize())
 	section.PointerToRelocations = section.PointerToRawData + section.SizeOfRawData
-	section.NumberOfRelocations = uint16(r.numDataEntries())
+	numRelocs := r.numDataEntries()
+	section.NumberOfRelocations = uint16(numRelocs)
+	manyRelocs := numRelocs >= 0xFFFF
+	if manyRelocs {
+		// The actual number of relocations is stored in an additional one, at the beginning of the table.
+		numRelocs++
+		section.NumberOfRelocations = 0xFFFF
+		section.Characteristics |= _IMAGE_SCN_LNK_NRELOC_OVFL
+	}
 
 	switch arch {
 	case ArchI386:
@@ -45,7 +54,7 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	default:
 		return errors.New(errUnknownArch)
 	}
-	file.PointerToSymbolTable = section.PointerToRelocations + uint32(section.NumberOfRelocations)*sizeOfReloc
+	file.PointerToSymbolTable = section.PointerToRelocations + uint32(numRelocs)*sizeOfReloc
 
 	if err := binary.Write(w, binary.LittleEndian, file); err != nil {
 		return err
@@ -57,6 +66,11 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	if err != nil {
 		return err
 	}
+	if manyRelocs {
+		if err := binary.Write(w, binary.LittleEndian, &pe.Reloc{VirtualAddress: uint32(numRelocs)}); err != nil {
+			return err
+		}
+	}
 	if err := writeRelocTable(w, 0, arch, addr); err != nil {
 		return err
 	}
-- 
2.43.0


From e1c067358e9bf285a93f751d80d5f070412c8313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 27/32] fix: keep timestamps which are more than 292 years away
 from 1970

---
 version/timestamp.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/version/timestamp.go b/version/timestamp.go
index 9b34d00..2846601 100644
--- a/version/timestamp.go
+++ b/version/timestamp.go
@@ -4,23 +4,28 @@ import "time"
 
 // Conversion of Windows Time Stamp
 
-// Difference Unix epoch in Windows timestamp format.
-const unixEpoch = 0x019DB1DED53E8000
+// Difference Unix epoch in Windows timestamp format, in seconds.
+const unixEpoch = 11644473600
 
 // Windows timestamp is in "hecto-nanoseconds" (100 ns)
-const tsUnitToNano = 100
+const (
+	tsUnitToNano = 100
+	secondToUnit = 10000000
+)
 
 func timeToTimestamp(t time.Time) (uint32, uint32) {
 	if t.IsZero() {
 		return 0, 0
 	}
-	ts := t.UnixNano()/tsUnitToNano + unixEpoch
-	return uint32(uint64(ts) >> 32), uint32(ts)
+	// UnixNano would overflow on dates which are too far from 1970
+	ts := uint64(t.Unix()+unixEpoch)*secondToUnit + uint64(t.Nanosecond()/tsUnitToNano)
+	return uint32(ts >> 32), uint32(ts)
 }
 
 func timestampToTime(ms uint32, ls uint32) time.Time {
 	if ms == 0 && ls == 0 {
 		return time.Time{}
 	}
-	return time.Unix(0, int64((uint64(ms)<<32|uint64(ls))-unixEpoch)*tsUnitToNano)
+	ts := uint64(ms)<<32 | uint64(ls)
+	return time.Unix(int64(ts/secondToUnit)-unixEpoch, int64(ts%secondToUnit)*tsUnitToNano)
 }
-- 
2.43.0


From 836eaab1d538c8eb59d76c2f3cefbb12a35c0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 28/32] fix: do not add a section at the address of an empty
 one

---
 exe.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index 496195d..cf032c0 100644
--- a/exe.go
+++ b/exe.go
@@ -419,11 +419,16 @@ func hasContents(sec *pe.SectionHeader32) bool {
 // virtualSize returns the size of a section in memory.
 //
 // Some linkers leave VirtualSize empty, the loader then relies on SizeOfRawData.
+// In any case, a section is not empty: another one must not be found at the same address.
 func virtualSize(sec *pe.SectionHeader32) uint32 {
-	if sec.VirtualSize == 0 {
+	switch {
+	case sec.VirtualSize != 0:
+		return sec.VirtualSize
+	case sec.SizeOfRawData != 0:
 		return sec.SizeOfRawData
+	default:
+		return 1
 	}
-	return sec.VirtualSize
 }
 
 func (pew *peWriter) fillSectionsInfo() error {
-- 
2.43.0


From 3bcae650ab553be002b9e14b2bcf711b1db60340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 29/32] fix: do not shift sections which overlap .rsrc in
 memory

---
 exe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exe.go b/exe.go
index cf032c0..85bd223 100644
--- a/exe.go
+++ b/exe.go
@@ -496,6 +496,12 @@ func (pew *peWriter) requiresNewSection() bool {
 		return true
 	}
 	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + virtualSize(pew.rsrcHdr))
+	for i := range pew.h.sections {
+		if pew.h.sections[i].VirtualAddress > pew.rsrcHdr.VirtualAddress && pew.h.sections[i].VirtualAddress < endOfRSRC {
+			// Shifting a section which overlaps .rsrc could bring it to the same address
+			return true
+		}
+	}
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From 6e9470f09d18ce2070c1f336ee390b4de954c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 30/32] fix: no panic when asking for the main translation of
 version information without strings

---
 version/version.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/version/version.go b/version/version.go
index 8997ac2..bc0ef1c 100644
--- a/version/version.go
+++ b/version/version.go
@@ -355,5 +355,9 @@ func (lt LangTable) GetMainTranslation() StringTable {
 			lang = k
 		}
 	}
-	return *lt[lang]
+	main = lt[lang]
+	if main == nil {
+		return nil
+	}
+	return *main
 }
-- 
2.43.0


From 55658da533e385d1033f3eade7682ce9ea4f9b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 31/32] fix: order names by UTF-16 code units, as Windows looks
 them up

---
 id.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index d44a3d6..123e5e7 100644
--- a/id.go
+++ b/id.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"strings"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // maxNameLength is the maximum length of a Name, in UTF-16 code units.
@@ -31,7 +32,29 @@ func (id ID) lessThan(ident Identifier) bool {
 
 func (n Name) lessThan(ident Identifier) bool {
 	right, ok := ident.(Name)
-	return !ok || n < right
+	return !ok || lessUTF16(string(n), string(right))
+}
+
+// lessUTF16 compares strings as Windows does when it looks for a name, that is by UTF-16 code units.
+//
+// Comparing UTF-8 would put U+FFFF before U+10000, which starts with a surrogate (U+D800).
+func lessUTF16(left, right string) bool {
+	for left != "" && right != "" {
+		l, lenL := utf8.DecodeRuneInString(left)
+		r, lenR := utf8.DecodeRuneInString(right)
+		if l != r {
+			switch {
+			case l > 0xFFFF && r <= 0xFFFF:
+				return r >= 0xE000
+			case l <= 0xFFFF && r > 0xFFFF:
+				return l < 0xE000
+			default:
+				return l < r
+			}
+		}
+		left, right = left[lenL:], right[lenR:]
+	}
+	return len(left) < len(right)
 }
 
 func checkIdentifier(ident Identifier) error {
-- 
2.43.0


From 71be82f8c693fda788a171623b65906dc3255b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 32/32] fix: refuse names which are not valid UTF-8

---
 errors.go | 1 +
 id.go     | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/errors.go b/errors.go
index 9d898b9..908373d 100644
--- a/errors.go
+++ b/errors.go
@@ -6,6 +6,7 @@ const (
 	errZeroID          = "ordinal identifier must not be zero"
 	errEmptyName       = "string identifier must not be empty"
 	errNameContainsNUL = "string identifier must not contain NUL char"
+	errNameNotUTF8     = "string identifier must be valid UTF-8"
 	errNameTooLong     = "string identifier must not be longer than 65535 UTF-16 code units"
 
 	errUnknownArch = "unknown architecture"
diff --git a/id.go b/id.go
index 123e5e7..9dfbcb4 100644
--- a/id.go
+++ b/id.go
@@ -73,6 +73,10 @@ func checkIdentifier(ident Identifier) error {
 		if strings.ContainsRune(string(ident), 0) {
 			return errors.New(errNameContainsNUL)
 		}
+		if !utf8.ValidString(string(ident)) {
+			// It would be stored as another name
+			return errors.New(errNameNotUTF8)
+		}
 	}
 	return nil
 }
-- 
2.43.0

