package main

// The simulated storage: streams whose every call may be split, delayed to
// another task, failed or be the last one before a crash.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"syscall"
)

// Fault is one injected fault. At is a position in millionths of the calls (or
// bytes) the same operation makes when nothing fails.
type Fault struct {
	On     string `json:"on"`          // read, seek, write, wseek
	At     int    `json:"at"`          //
	N      int    `json:"n,omitempty"` // or the exact call (or byte), counted from 1
	K      string `json:"k"`           // err, part, eof, ueof, lenerr, full, crash
	Sticky bool   `json:"sticky,omitempty"`
	Ph     bool   `json:"ph,omitempty"` // At counts only calls unlike the one before
	E      int    `json:"e,omitempty"`  // which error, see errKinds
}

// errKinds are the errors streams fail with: besides one nobody knows, those
// which have a meaning elsewhere (pipes, devices and archives return them).
var errKinds = []error{errInj, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress,
	syscall.EINTR, syscall.EAGAIN, io.ErrShortBuffer, os.ErrDeadlineExceeded, os.ErrClosed, bytes.ErrTooLarge}

func (f *Fault) err() error { return errKinds[f.E%len(errKinds)] }

// readErr is the error of a failing read, which is never the end of the data:
// that is a fault of its own.
func (f *Fault) readErr() error {
	if e := f.err(); e != io.EOF {
		return e
	}
	return errInj
}

// IOSpec says how a stream behaves.
type IOSpec struct {
	K       string  `json:"k,omitempty"`     // reader: plain, sized, at, os...; writer: plain, seeker, from, buffer, append, noseek, os...
	Chunk   int     `json:"chunk,omitempty"` // most bytes per read, 0: no limit
	RndSeed uint64  `json:"rnd,omitempty"`   // chunk sizes vary
	Zero    int     `json:"zero,omitempty"`  // every n-th read returns 0, nil
	EOFData bool    `json:"eofdata,omitempty"`
	Scrib   bool    `json:"scrib,omitempty"` // scribbles over the unused part of the buffer
	Pos     int64   `json:"pos,omitempty"`   // where the caller left the stream
	Stale   int     `json:"stale,omitempty"` // old bytes in the destination
	Start   int     `json:"start,omitempty"` // where the destination starts
	F       []Fault `json:"f,omitempty"`
}

var errInj = errors.New("injected I/O failure")

type crashSentinel struct{}

type stepSentinel struct{}

type streamStats struct {
	reads, seeks, writes, wseeks int
	bytesIn, bytesOut            int64

	phR, phW     []int32 // calls of another size than the one before
	lastR, lastW int
}

// phase notes the beginning of something else.
func phase(l *[]int32, last *int, call, size int) {
	if size != *last && len(*l) < 5000 {
		*l = append(*l, int32(call))
	}
	*last = size
}

type ioProfile = streamStats

const maxIOCalls = 3000000

type rstream struct {
	t       *Task
	sp      *IOSpec
	data    []byte
	pos     int64
	st      streamStats
	prof    *ioProfile // calls made when nothing fails
	rng     *Rng
	fired   map[string]int
	dead    error
	deadS   error
	zeroRun int
	maxPos  int64
}

func newRStream(t *Task, sp *IOSpec, data []byte, prof *ioProfile) *rstream {
	r := &rstream{t: t, sp: sp, data: data, prof: prof, pos: sp.Pos, fired: map[string]int{}}
	if sp.RndSeed != 0 {
		r.rng = newRng(sp.RndSeed, 11)
	}
	return r
}

// call returns the fault due at this call.
func due(fs []Fault, on string, call int, prof *ioProfile) *Fault {
	tot := 0
	var ph []int32
	if prof != nil {
		switch on {
		case "read":
			tot, ph = prof.reads, prof.phR
		case "seek":
			tot = prof.seeks
		case "write":
			tot, ph = prof.writes, prof.phW
		case "wseek":
			tot = prof.wseeks
		}
	}
	for i := range fs {
		f := &fs[i]
		if f.On == on && (f.On != "write" || f.K == "err" || f.K == "lenerr" || f.K == "part") {
			n := f.N
			if n == 0 && prof != nil {
				n = 1 + f.At*tot/1000000
				if f.Ph && len(ph) > 0 {
					n = int(ph[f.At%1000000*len(ph)/1000000])
				}
			}
			if n > 0 && call == n {
				return f
			}
		}
	}
	return nil
}

func (r *rstream) Read(p []byte) (int, error) {
	r.t.ioYield("read")
	r.st.reads++
	if r.st.reads > maxIOCalls {
		panic(stepSentinel{})
	}
	phase(&r.st.phR, &r.st.lastR, r.st.reads, len(p))
	n, err := r.read(p)
	r.st.bytesIn += int64(n)
	if r.pos > r.maxPos {
		r.maxPos = r.pos
	}
	r.t.logIO("R", len(p), n, err)
	return n, err
}

func (r *rstream) read(p []byte) (int, error) {
	if r.dead != nil {
		return 0, r.dead
	}
	f := due(r.sp.F, "read", r.st.reads, r.prof)
	if f != nil {
		r.fired["read-"+f.K]++
		var e error
		switch f.K {
		case "eof":
			e = io.EOF
		case "ueof":
			e = io.ErrUnexpectedEOF
		case "crash":
			panic(crashSentinel{})
		default:
			e = f.readErr()
		}
		if f.Sticky {
			r.dead = e
			if f.K != "eof" {
				r.deadS = e
			}
		}
		n := 0
		if f.K == "part" && len(p) > 1 && r.pos < int64(len(r.data)) {
			n = copy(p[:len(p)/2], r.data[r.pos:])
			r.pos += int64(n)
		}
		return n, e
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.sp.Zero > 0 && r.st.reads%r.sp.Zero == 0 && r.zeroRun < 3 {
		r.zeroRun++
		r.fired["empty-read"]++
		return 0, nil
	}
	r.zeroRun = 0
	if r.pos >= int64(len(r.data)) {
		return 0, io.EOF
	}
	m := len(p)
	if r.sp.Chunk > 0 {
		c := r.sp.Chunk
		if r.rng != nil {
			c = 1 + r.rng.N(c)
		}
		if m > c {
			m = c
		}
	}
	n := copy(p[:m], r.data[r.pos:])
	r.pos += int64(n)
	if n < len(p) && m < len(p) && r.pos < int64(len(r.data)) {
		r.fired["short-read"]++
	}
	if r.sp.Scrib {
		for i := n; i < len(p) && i < n+4096; i++ { // or large buffers would take ages
			p[i] = 0xA5
		}
	}
	if r.sp.EOFData && r.pos >= int64(len(r.data)) {
		r.fired["data+eof"]++
		return n, io.EOF
	}
	return n, nil
}

func (r *rstream) Seek(off int64, whence int) (int64, error) {
	r.t.ioYield("seek")
	r.st.seeks++
	if r.st.seeks > maxIOCalls {
		panic(stepSentinel{})
	}
	n, err := r.seek(off, whence)
	r.t.logIO("S", int(off), int(n), err)
	return n, err
}

func (r *rstream) seek(off int64, whence int) (int64, error) {
	if r.deadS != nil {
		return 0, r.deadS
	}
	if f := due(r.sp.F, "seek", r.st.seeks, r.prof); f != nil {
		r.fired["seek-"+f.K]++
		if f.K == "crash" {
			panic(crashSentinel{})
		}
		if f.Sticky {
			r.dead, r.deadS = f.readErr(), f.err()
		}
		return 0, f.err()
	}
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = off
	return off, nil
}

type rSized struct{ *rstream }

func (r rSized) Size() int64 { return int64(len(r.data)) }

type rAt struct{ *rstream }

func (r rAt) Size() int64 { return int64(len(r.data)) }

func (r rAt) ReadAt(p []byte, off int64) (int, error) {
	r.t.ioYield("readat")
	r.st.reads++
	if r.dead != nil {
		return 0, r.dead
	}
	if f := due(r.sp.F, "read", r.st.reads, r.prof); f != nil {
		r.fired["read-"+f.K]++
		e := f.readErr()
		switch f.K {
		case "eof":
			e = io.EOF
		case "ueof":
			e = io.ErrUnexpectedEOF
		case "crash":
			panic(crashSentinel{})
		}
		if f.Sticky {
			r.dead = e
			if f.K != "eof" {
				r.deadS = e
			}
		}
		n := 0
		if f.K == "part" && len(p) > 1 && off >= 0 && off < int64(len(r.data)) {
			n = copy(p[:len(p)/2], r.data[off:])
		}
		return n, e
	}
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	if r.sp.EOFData && off+int64(n) == int64(len(r.data)) {
		return n, io.EOF // allowed here as well
	}
	return n, nil
}

// source makes the io.ReadSeeker handed to the library. The returned function
// releases it and tells the final position (-1 if unknown).
func (t *Task) source(sp *IOSpec, data []byte, prof *ioProfile) (io.ReadSeeker, *rstream, func() int64) {
	switch sp.K {
	case "os", "osclosed", "oswronly":
		p := t.w.scratchFile("src")
		if err := os.WriteFile(p, data, 0o600); err != nil {
			infra("scratch file: %v", err)
		}
		flag := os.O_RDWR
		if sp.K == "oswronly" {
			flag = os.O_WRONLY
		}
		f, err := os.OpenFile(p, flag, 0)
		if err != nil {
			infra("scratch file: %v", err)
		}
		f.Seek(sp.Pos, io.SeekStart)
		if sp.K == "osclosed" {
			f.Close()
		}
		return f, nil, func() int64 {
			pos, err := f.Seek(0, io.SeekCurrent)
			if err != nil {
				pos = -1
			}
			f.Close()
			os.Remove(p)
			return pos
		}
	case "bytes":
		b := bytes.NewReader(data)
		b.Seek(sp.Pos, io.SeekStart)
		return b, nil, func() int64 { p, _ := b.Seek(0, io.SeekCurrent); return p }
	}
	r := newRStream(t, sp, data, prof)
	if t.w.plan.Seed%5 < 2 && t.w.quiet == 0 {
		// The caller keeps one stream, whose contents change behind the back of the library
		if t.kept == nil {
			t.kept = &rstream{}
		}
		if !t.keptBusy {
			t.keptBusy = true
			*t.kept = *r
			r = t.kept
		}
	}
	rel := func() int64 {
		t.addFired(r.fired)
		if r == t.kept {
			t.keptBusy = false
		}
		return r.pos
	}
	switch sp.K {
	case "sized":
		return rSized{r}, r, rel
	case "at":
		return rAt{r}, r, rel
	}
	return r, r, rel
}

type wstream struct {
	t     *Task
	sp    *IOSpec
	buf   []byte
	pos   int64
	st    streamStats
	prof  *ioProfile
	fired map[string]int
	dead  error
	total int64 // bytes accepted
}

const maxOut = 96 << 20

func (s *wstream) Write(p []byte) (int, error) {
	s.t.ioYield("write")
	s.st.writes++
	if s.st.writes > maxIOCalls {
		panic(stepSentinel{})
	}
	phase(&s.st.phW, &s.st.lastW, s.st.writes, len(p))
	n, err := s.write(p)
	s.t.logIO("W", len(p), n, err)
	return n, err
}

func (s *wstream) put(p []byte) {
	if s.sp.K == "append" {
		s.pos = int64(len(s.buf))
	}
	end := s.pos + int64(len(p))
	if end > maxOut {
		s.fired["output-runaway"]++
		panic(stepSentinel{})
	}
	for int64(len(s.buf)) < end {
		if int64(cap(s.buf)) >= end {
			s.buf = s.buf[:end]
		} else {
			nb := make([]byte, end, 2*end)
			copy(nb, s.buf)
			s.buf = nb
		}
	}
	copy(s.buf[s.pos:end], p)
	s.pos = end
	s.total += int64(len(p))
	s.st.bytesOut += int64(len(p))
}

func (s *wstream) write(p []byte) (int, error) {
	if s.dead != nil {
		return 0, s.dead
	}
	if len(s.sp.F) > 0 {
		for i := range s.sp.F {
			f := &s.sp.F[i]
			if f.On != "write" || (f.K != "full" && f.K != "crash") || (f.N == 0 && s.prof == nil) {
				continue
			}
			// byte based: the medium takes limit bytes and not one more
			limit := int64(f.N)
			if f.N == 0 {
				limit = int64(f.At) * s.prof.bytesOut / 1000000
			}
			if s.total+int64(len(p)) > limit {
				n := int(limit - s.total)
				if n < 0 {
					n = 0
				}
				s.fired["write-"+f.K]++
				s.put(p[:n])
				if f.K == "crash" {
					panic(crashSentinel{})
				}
				s.dead = syscall.ENOSPC
				return n, s.dead
			}
		}
		if f := due(s.sp.F, "write", s.st.writes, s.prof); f != nil {
			s.fired["write-"+f.K]++
			if f.Sticky {
				s.dead = f.err()
			}
			switch f.K {
			case "part":
				n := len(p) / 2
				s.put(p[:n])
				return n, f.err()
			case "lenerr":
				s.put(p)
				return len(p), f.err()
			}
			return 0, f.err()
		}
	}
	s.put(p)
	return len(p), nil
}

func (s *wstream) seek(off int64, whence int) (int64, error) {
	s.t.ioYield("wseek")
	s.st.wseeks++
	if s.dead != nil {
		return 0, s.dead
	}
	if s.sp.K == "noseek" {
		s.fired["wseek-refused"]++
		return 0, syscall.ESPIPE
	}
	if f := due(s.sp.F, "wseek", s.st.wseeks, s.prof); f != nil {
		s.fired["wseek-err"]++
		return 0, f.err()
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.buf))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

type wSeeker struct{ *wstream }

func (s wSeeker) Seek(off int64, whence int) (int64, error) { return s.seek(off, whence) }

type wFrom struct{ *wstream }

// ReadFrom is the bulk transfer a destination may offer.
func (s wFrom) ReadFrom(r io.Reader) (int64, error) {
	var tot int64
	b := make([]byte, 700)
	empty := 0
	for {
		n, err := r.Read(b)
		if n > 0 {
			empty = 0
			m, werr := s.Write(b[:n])
			tot += int64(m)
			if werr != nil {
				return tot, werr
			}
		} else if err == nil {
			if empty++; empty > 100 {
				return tot, io.ErrNoProgress
			}
		}
		if err == io.EOF {
			return tot, nil
		}
		if err != nil {
			return tot, err
		}
	}
}

type wSeekFrom struct{ wFrom }

func (s wSeekFrom) Seek(off int64, whence int) (int64, error) { return s.seek(off, whence) }

type wString struct{ *wstream }

func (s wString) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

func (s wString) WriteByte(c byte) error { _, err := s.Write([]byte{c}); return err }

// sinkResult is what a destination holds after an operation.
type sinkResult struct {
	got     []byte // what was put there, from the start position on
	extra   string // damage done to old contents
	total   int64
	unknown bool
}

// sink makes the io.Writer handed to the library.
func (t *Task) sink(sp *IOSpec, prof *ioProfile) (io.Writer, *wstream, func() sinkResult) {
	stale := fillBytes(sp.Stale, 0xDEAD)
	for i := range stale {
		stale[i] |= 1
	}
	start := sp.Start
	if start > sp.Stale {
		start = sp.Stale
	}
	switch sp.K {
	case "os", "osappend", "osclosed", "osrdonly":
		p := t.w.scratchFile("dst")
		if err := os.WriteFile(p, stale, 0o600); err != nil {
			infra("scratch file: %v", err)
		}
		flag := os.O_RDWR
		if sp.K == "osappend" {
			flag |= os.O_APPEND
			start = sp.Stale
		}
		if sp.K == "osrdonly" {
			flag = os.O_RDONLY
		}
		f, err := os.OpenFile(p, flag, 0)
		if err != nil {
			infra("scratch file: %v", err)
		}
		f.Seek(int64(start), io.SeekStart)
		if sp.K == "osclosed" {
			f.Close()
		}
		return f, nil, func() sinkResult {
			f.Close()
			b, err := os.ReadFile(p)
			if err != nil {
				infra("scratch file: %v", err)
			}
			os.Remove(p)
			return splitSink(b, stale, start, -1)
		}
	case "ospipe":
		r, w, err := os.Pipe()
		if err != nil {
			infra("pipe: %v", err)
		}
		// big enough for what is sent through it, so that nobody ever blocks
		setPipeSize(w, 1<<20)
		return w, nil, func() sinkResult {
			w.Close()
			b, _ := io.ReadAll(r)
			r.Close()
			return sinkResult{got: b, total: int64(len(b))}
		}
	case "devfull":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			infra("/dev/full: %v", err)
		}
		return f, nil, func() sinkResult { f.Close(); t.addFired(map[string]int{"write-devfull": 1}); return sinkResult{} }
	case "buffer":
		b := &bytes.Buffer{}
		return b, nil, func() sinkResult { return sinkResult{got: b.Bytes(), total: int64(b.Len())} }
	}
	s := &wstream{t: t, sp: sp, prof: prof, fired: map[string]int{}}
	s.buf = append(s.buf, stale...)
	if sp.K == "append" {
		start = sp.Stale
	}
	s.pos = int64(start)
	rel := func() sinkResult {
		t.addFired(s.fired)
		return splitSink(s.buf, stale, start, s.total)
	}
	switch sp.K {
	case "seeker", "append", "noseek":
		return wSeeker{s}, s, rel
	case "from":
		return wFrom{s}, s, rel
	case "seekfrom":
		return wSeekFrom{wFrom{s}}, s, rel
	case "string":
		return wString{s}, s, rel
	}
	return s, s, rel
}

// again makes a destination that failed work, either emptied or carrying on
// behind what it holds.
func (s *wstream) again(sp *IOSpec, empty bool) func() sinkResult {
	s.sp, s.dead, s.fired = sp, nil, map[string]int{}
	stale := fillBytes(sp.Stale, 0xDEAD)
	for i := range stale {
		stale[i] |= 1
	}
	start := sp.Start
	if start > sp.Stale || sp.K == "append" {
		start = sp.Stale
	}
	s.st = streamStats{} // or the step limit would count both attempts
	if empty {
		s.buf = append(make([]byte, 0, len(stale)), stale...)
		s.pos, s.total = int64(start), 0
		return func() sinkResult { return splitSink(s.buf, stale, start, s.total) }
	}
	if sp.K == "append" {
		s.pos = int64(len(s.buf))
	}
	for int64(len(s.buf)) < s.pos {
		s.buf = append(s.buf, 0)
	}
	s.buf, s.total = s.buf[:s.pos], 0
	before := append([]byte{}, s.buf...)
	return func() sinkResult { return splitSink(s.buf, before, len(before), s.total) }
}

func splitSink(buf, stale []byte, start int, total int64) sinkResult {
	res := sinkResult{total: total}
	if len(buf) < start || !bytes.Equal(buf[:start], stale[:start]) {
		res.extra = "bytes before the start of the destination were changed"
		return res
	}
	res.got = buf[start:]
	return res
}

// matches tells whether the destination received exactly want: old bytes may
// remain behind it, nothing else.
func (r *sinkResult) matches(want []byte, sp *IOSpec) string {
	if r.extra != "" {
		return r.extra
	}
	if len(r.got) < len(want) {
		return fmt.Sprintf("%d of %d bytes arrived", len(r.got), len(want))
	}
	for i := range want {
		if r.got[i] != want[i] {
			return fmt.Sprintf("byte %#x of %#x is %#02x instead of %#02x", i, len(want), r.got[i], want[i])
		}
	}
	start := sp.Start
	if start > sp.Stale {
		start = sp.Stale
	}
	if sp.K == "append" || sp.K == "osappend" {
		start = sp.Stale
	}
	stale := fillBytes(sp.Stale, 0xDEAD)
	for i := range stale {
		stale[i] |= 1
	}
	rest := r.got[len(want):]
	var old []byte
	if start+len(want) < len(stale) {
		old = stale[start+len(want):]
	}
	if !bytes.Equal(rest, old) {
		return fmt.Sprintf("%d unexpected bytes follow the output", len(rest))
	}
	return ""
}

func (w *World) scratchFile(kind string) string {
	if w.scratch == "" {
		d, err := os.MkdirTemp(scratchBase(), "winres-sim-")
		if err != nil {
			infra("scratch directory: %v", err)
		}
		w.scratch = d
	}
	w.nscratch++
	return filepath.Join(w.scratch, fmt.Sprintf("%s%d", kind, w.nscratch))
}
func scratchBase() string { return "" }

func setPipeSize(f *os.File, n int) {
	rc, err := f.SyscallConn()
	if err != nil {
		return
	}
	rc.Control(func(fd uintptr) {
		syscall.Syscall(syscall.SYS_FCNTL, fd, 1031, uintptr(n)) // F_SETPIPE_SZ
	})
}
