package main

// The simulated world: tasks with their in-memory objects and their files.

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

// Plan is one complete simulated execution. Nothing else influences it.
type Plan struct {
	Prop  string     `json:"prop"`
	Seed  uint64     `json:"seed"`
	Map   uint64     `json:"map"`             // hash seeds and iteration order of hash tables
	Light bool       `json:"light,omitempty"` // compare with runs alone instead of reference runs
	Exes  []ExeSpec  `json:"exes,omitempty"`
	Icos  []IcoSpec  `json:"icos,omitempty"`
	Vers  []VerSpec  `json:"vers,omitempty"`
	Tasks []TaskPlan `json:"tasks"`
	Sched []Switch   `json:"sched,omitempty"`
}

type TaskPlan struct {
	Pre []Op `json:"pre,omitempty"` // before anything runs concurrently
	Ops []Op `json:"ops"`
}

// Switch suspends Task at its Step-th yield point and lets To run.
type Switch struct {
	Task int   `json:"task"`
	Step int64 `json:"step"`
	To   int   `json:"to"`
}

// Damage is one change to stored bytes.
type Damage struct {
	K  string `json:"k"` // flip, set, zero, cut, u16, u32, swap
	At int    `json:"at"`
	V  uint32 `json:"v,omitempty"`
	N  int    `json:"n,omitempty"`
}

// Op is one step of a task.
type Op struct {
	O     string   `json:"o"`
	A     int      `json:"a,omitempty"`
	B     int      `json:"b,omitempty"`
	C     int      `json:"c,omitempty"`
	T     Ident    `json:"t,omitempty"`
	R     Ident    `json:"r,omitempty"`
	L     uint16   `json:"l,omitempty"`
	HasL  bool     `json:"hasl,omitempty"`
	D     DataSpec `json:"d,omitempty"`
	In    *IOSpec  `json:"in,omitempty"`
	Out   *IOSpec  `json:"out,omitempty"`
	Sig   int      `json:"sig,omitempty"`
	Force bool     `json:"force,omitempty"`
	Arch  string   `json:"arch,omitempty"`
	N     int      `json:"n,omitempty"`
	Seed  uint64   `json:"seed,omitempty"`
	Dmg   []Damage `json:"dmg,omitempty"`
	Retry bool     `json:"retry,omitempty"`
}

// Violation is what a run stops at.
type Violation struct {
	Props []string `json:"props"`
	What  string   `json:"what"`
	Task  int      `json:"task"`
	Op    int      `json:"op"`
}

func (v *Violation) of(prop string) bool {
	for _, p := range v.Props {
		if p == prop || p == "*" {
			return true
		}
	}
	return false
}

type SetReg struct {
	rs *winres.ResourceSet
	m  *MSet
	hi [2]int // highest icon and cursor image number ever used
}

// mark keeps track of image numbers that were used.
// newSetReg is a set that was loaded: the numbers in it count as used.
func newSetReg(rs *winres.ResourceSet, m *MSet) *SetReg {
	s := &SetReg{rs: rs, m: m.deep()}
	s.mark()
	return s
}

func (s *SetReg) mark() {
	for k := range s.m.m {
		s.used(k)
	}
}

func (s *SetReg) used(k Key) {
	if !k.R.isName() {
		if k.T == nid(rtIcon) && int(k.R.I) > s.hi[0] {
			s.hi[0] = int(k.R.I)
		}
		if k.T == nid(rtCursor) && int(k.R.I) > s.hi[1] {
			s.hi[1] = int(k.R.I)
		}
	}
}

type IconReg struct {
	ic *winres.Icon
	cu *winres.Cursor
	im []Img
}

type VerReg struct {
	vi *version.Info
	m  *MVer
}

type File struct {
	kind  string // exe, ico, cur, obj
	data  []byte
	state string // ok, torn, damaged
	m     *MSet  // executables; nil: none
	im    []Img
	orig  []byte // what a torn file was meant to be
}

const nReg = 6

type Task struct {
	w           *World
	id          int
	plan        *TaskPlan
	sets        [nReg]*SetReg
	icons       [nReg]*IconReg
	curs        [nReg]*IconReg
	vers        [nReg]*VerReg
	files       [16]*File
	step        int64
	obs         []string
	held        []heldData
	heldV       []heldVer
	opIdx       int
	inPre       bool
	done        bool
	kept        *rstream // source used over and over
	keptBusy    bool
	runCh       chan bool
	mapS        uint64
	mapBase     uint64
	faultsFired int
	where       *[]int32 // when set, records the site of each step
}

type heldVer struct {
	vi   *version.Info
	m    *MVer
	what string
}

type heldData struct {
	b    []byte
	h    uint64
	what string
}

type World struct {
	plan     *Plan
	tasks    []*Task
	cur      *Task
	quiet    int
	steps    int64 // yields of the library, of all tasks
	opSteps  int64
	log      uint64
	events   int64
	trace    func(string)
	scratch  string
	nscratch int
	viol     *Violation
	cov      *Coverage
	sched    *scheduler
	shared   []*IconReg // icons and cursors which tasks start from
	exeData  [][]byte
	size     int64 // of all executables
	icoData  [][]byte
	wall     int64 // simulated clocks, ns
	mono     int64
	ticks    uint64
	read     int64 // steps when a clock was last read
}

const maxOpSteps = 60000000

// Coverage accumulates over many runs.
type Coverage struct {
	Runs     int64            `json:"runs"`
	Ops      int64            `json:"ops"`
	Steps    int64            `json:"steps"`
	Events   int64            `json:"events"`
	Faults   map[string]int64 `json:"faults"`
	OpKinds  map[string]int64 `json:"opkinds"`
	States   map[uint64]bool  `json:"-"`
	Inter    map[uint64]bool  `json:"-"`
	Sites    []bool           `json:"-"`
	Foreign  map[string]int64 `json:"foreign"`
	Switches int64            `json:"switches"`

	ClockS     float64 `json:"clocks"` // seconds by which the clocks were moved
	ClockReads int64   `json:"clockreads"`
	ClockBack  int64   `json:"clockback"`
}

func newCoverage() *Coverage {
	return &Coverage{Faults: map[string]int64{}, OpKinds: map[string]int64{}, States: map[uint64]bool{}, Inter: map[uint64]bool{}, Foreign: map[string]int64{}, Sites: make([]bool, 8192)}
}

func infra(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simulator trouble: "+f+"\n", a...)
	os.Exit(2)
}

func (w *World) event(s string) {
	w.events++
	w.log = mix(w.log ^ hashStr(s))
	if w.trace != nil {
		w.trace(s)
	}
}

func (t *Task) logf(f string, a ...interface{}) {
	s := fmt.Sprintf("t%d.%d ", t.id, t.opIdx) + fmt.Sprintf(f, a...)
	t.w.event(s)
}

// note records an observation of the task, to be compared with a run alone.
var scratchPath = regexp.MustCompile(`[^ ]*winres-sim-[0-9]+/[a-z]+[0-9]+`)

// cleanPaths hides the names of scratch files, which are never the same.
func cleanPaths(s string) string {
	if !strings.Contains(s, "winres-sim-") {
		return s
	}
	return scratchPath.ReplaceAllString(s, "scratch")
}

func (t *Task) note(f string, a ...interface{}) {
	s := cleanPaths(fmt.Sprintf(f, a...))
	t.obs = append(t.obs, fmt.Sprintf("%d: %s", t.opIdx, s))
	t.logf("%s", s)
}

func (t *Task) logIO(k string, a, n int, err error) {
	w := t.w
	if w.quiet > 0 {
		return
	}
	w.events++
	h := uint64(a)<<32 ^ uint64(n)<<8 ^ uint64(k[0])
	if err != nil {
		h ^= hashStr(cleanPaths(err.Error()))
	}
	w.log = mix(w.log ^ h ^ uint64(t.id)<<60)
	if w.trace != nil {
		if err != nil {
			w.trace(fmt.Sprintf("t%d.%d   %s %d -> %d, %v", t.id, t.opIdx, k, a, n, err))
		} else {
			w.trace(fmt.Sprintf("t%d.%d   %s %d -> %d", t.id, t.opIdx, k, a, n))
		}
	}
}

func (t *Task) ioYield(what string) {
	if t.w.quiet > 0 {
		return
	}
	t.yield(0)
}

// yield is called at every yield point of a task.
func (t *Task) yield(site int) {
	t.step++
	if l := t.where; l != nil && len(*l) < 400000 {
		*l = append(*l, int32(site))
	}
	if s := t.w.sched; s != nil {
		s.at(t, site)
	}
	// What hash tables draw depends on this step alone, not on what caches of
	// the standard library, filled by earlier runs, have drawn before.
	runtime.VerifSeed(true, mix(t.mapBase+uint64(t.step)))
}

var hookWorld *World

func hook(site int) {
	w := hookWorld
	if w == nil {
		return
	}
	w.steps++
	w.opSteps++
	if site < len(w.cov.Sites) {
		w.cov.Sites[site] = true
	}
	if w.opSteps > maxOpSteps+150*w.size {
		w.opSteps = 0
		panic(stepSentinel{})
	}
	if w.quiet > 0 || w.cur == nil {
		return
	}
	w.cur.yield(site)
}

func (t *Task) addFired(m map[string]int) {
	if t.w.quiet > 0 {
		return
	}
	for k, n := range m {
		t.w.cov.Faults[k] += int64(n)
		switch k {
		case "short-read", "empty-read", "data+eof", "wseek-refused":
		default:
			t.faultsFired += n
		}
	}
}

// fail stops the run. props lists the properties that are broken, "*" means
// whichever is being checked.
func (t *Task) fail(props string, f string, a ...interface{}) {
	panic(&Violation{Props: strings.Fields(props), What: cleanPaths(fmt.Sprintf(f, a...)), Task: t.id, Op: t.opIdx})
}

// tick moves the simulated clocks, which is done between operations: the wall
// clock may stand still, go on, jump ahead or be set back.
func (w *World) tick() {
	w.ticks++
	h := mix(w.plan.Map ^ w.ticks*0x9e37)
	const hour = 3600 * 1000000000
	d := int64(h>>8) & 0xffffffff // up to 4 s
	switch h & 15 {
	case 0:
		d = 0
	case 1, 2, 3:
		d *= 1000 // an hour
	case 4:
		d = 24 * hour * int64(h>>8&0x3fff) // 40 years
	case 5:
		d *= 1000000 // months
	}
	w.mono += d
	w.cov.ClockS += float64(d) / 1e9
	switch h >> 4 & 15 {
	case 0:
		d = -2 * hour
		w.cov.ClockBack++
	case 1:
		d = -24 * hour * int64(h>>8&0xfff)
		w.cov.ClockBack++
	}
	w.wall += d
	if w.wall < 100000000*1000000000 || w.wall > 7000000000*1000000000 {
		w.wall = 1e18 + int64(h>>3) // 2001 to 2074
	}
}

// now is what the clocks of the library's world show: a microsecond per step.
func (w *World) now() (wall, mono int64) {
	d := (w.steps-w.read)*1000 + 100
	w.read = w.steps
	w.wall += d
	w.mono += d
	w.cov.ClockReads++
	return w.wall, w.mono
}

func clock() (wall, mono int64) {
	w := hookWorld
	if w == nil || w.cur == nil {
		return 0, 0
	}
	return w.now()
}

// quietly runs the library as an oracle, outside the simulation: nothing
// yields, nothing is logged, hash tables are iterated in another order.
func (t *Task) quietly(seed uint64, f func()) {
	w := t.w
	w.quiet++
	w.tick()
	st, _ := runtime.VerifSeed(true, mix(seed^0x5151))
	defer func() {
		w.quiet--
		runtime.VerifSeed(true, st)
	}()
	f()
}

// try runs f until it returns or the simulated machine crashes.
func (t *Task) try(f func() error) (err error, crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashSentinel); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	return f(), false
}

// crash loses everything the task had in memory.
func (t *Task) crash() {
	t.logf("crash")
	t.w.cov.Faults["crash"]++
	for i := range t.sets {
		t.sets[i], t.icons[i], t.curs[i], t.vers[i] = nil, nil, nil, nil
	}
	t.held, t.heldV = nil, nil
}

func (t *Task) set(i int) *SetReg {
	i = i % nReg
	if t.sets[i] == nil {
		t.sets[i] = &SetReg{rs: &winres.ResourceSet{}, m: newMSet()}
	}
	return t.sets[i]
}

func (t *Task) file(i int, kind string) *File {
	f := t.files[i%len(t.files)]
	if f == nil || f.kind != kind {
		return nil
	}
	return f
}

func (t *Task) hold(b []byte, what string) {
	if len(b) == 0 || len(t.held) > 200 {
		return
	}
	t.held = append(t.held, heldData{b, hashBytes(b), what})
}

// holdVer remembers version information that must stay as it is.
func (t *Task) holdVer(m map[uint16]*version.Info, what string) {
	if len(m) > 8 || len(t.heldV) > 12 {
		return
	}
	var ls []int
	for l := range m {
		ls = append(ls, int(l))
	}
	sort.Ints(ls)
	for _, l := range ls {
		t.heldV = append(t.heldV, heldVer{m[uint16(l)], verModel(m[uint16(l)]), what})
	}
}

func (t *Task) checkHeld() {
	for _, h := range t.heldV {
		if d := h.m.diff(verModel(h.vi), "before", "now"); d != "" {
			t.fail("C10", "%s was modified later: %s", h.what, d)
		}
	}
	for i := range t.held {
		h := &t.held[i]
		if hashBytes(h.b) != h.h {
			t.fail("C10", "data returned earlier (%s) was modified", h.what)
		}
	}
}

// runOp executes one step and turns what must not happen into a violation.
func (t *Task) runOp(i int, op *Op) {
	t.opIdx = i
	t.w.opSteps = 0
	t.w.tick()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch v := r.(type) {
		case *Violation:
			panic(v)
		case stopSentinel:
			panic(v)
		case crashSentinel:
			t.crash()
			return
		case stepSentinel:
			t.w.quiet = 0
			panic(&Violation{Props: []string{"*"}, What: "operation " + op.O + " did not end, or its output grew without bound", Task: t.id, Op: i})
		}
		stack := string(debug.Stack())
		where := ""
		for _, l := range strings.Split(stack, "\n") {
			if k := strings.Index(l, ".go:"); k > 0 && !strings.Contains(l, "/verif") && !strings.Contains(l, "runtime/") && !strings.Contains(l, "/sim/") {
				l = strings.TrimSpace(l)
				if j := strings.LastIndex(l, " +0x"); j > 0 {
					l = l[:j]
				}
				where += " at " + l[strings.LastIndex(l, "/")+1:]
				if strings.Count(where, " at ") >= 4 {
					break
				}
			}
		}
		t.w.quiet = 0
		if os.Getenv("SIM_STACK") != "" {
			fmt.Fprintln(os.Stderr, stack)
		}
		panic(&Violation{Props: []string{"*"}, What: fmt.Sprintf("operation %s panicked: %v%s", op.O, r, where), Task: t.id, Op: i})
	}()
	t.w.cov.Ops++
	t.w.cov.OpKinds[op.O]++
	t.exec(op)
	t.checkHeld()
	if mix(op.Seed^0xb75)%6 == 0 {
		t.checkBystanders(op.Seed, false)
	}
}

type stopSentinel struct{}

// state records an abstract state for coverage.
func (t *Task) state(f string, a ...interface{}) {
	if t.w.quiet == 0 {
		t.w.cov.States[hashStr(fmt.Sprintf(f, a...))] = true
	}
}

func newWorld(p *Plan, cov *Coverage) *World {
	w := &World{plan: p, cov: cov, log: p.Seed}
	for i := range p.Exes {
		w.exeData = append(w.exeData, p.Exes[i].Build())
		w.size += int64(len(w.exeData[i]))
	}
	for i := range p.Icos {
		w.icoData = append(w.icoData, p.Icos[i].Build())
	}
	for i := range p.Tasks {
		t := &Task{w: w, id: i, plan: &p.Tasks[i], mapS: mix(p.Map + uint64(i)*77), mapBase: mix(p.Map + uint64(i)*79)}
		t.seedFiles()
		w.tasks = append(w.tasks, t)
	}
	return w
}

// Files 0..3 hold the executables of the plan, 4..6 its icons and cursors.
func (t *Task) seedFiles() {
	for i, d := range t.w.exeData {
		if i > 3 {
			break
		}
		f := &File{kind: "exe", data: append([]byte{}, d...), state: "ok"}
		if t.w.plan.Exes[i].hasRsrc() {
			f.m = itemsToSet(t.w.plan.Exes[i].Res)
		}
		t.files[i] = f
	}
	for i, d := range t.w.icoData {
		if i > 2 {
			break
		}
		sp := &t.w.plan.Icos[i]
		k := "ico"
		if sp.Cur {
			k = "cur"
		}
		t.files[4+i] = &File{kind: k, data: append([]byte{}, d...), state: "ok", im: sp.imgs()}
	}
}

func (w *World) cleanup() {
	if w.scratch != "" {
		os.RemoveAll(w.scratch)
	}
}

func (t *Task) runAll(ops []Op) {
	for i := range ops {
		t.runOp(i, &ops[i])
	}
}

// Run executes a plan and returns its violation, if any.
func (w *World) Run() (v *Violation) {
	hookWorld = w
	defer func() {
		hookWorld = nil
		w.cur = nil
		runtime.VerifSeed(false, 0)
		w.cleanup()
		w.cov.Runs++
		w.cov.Steps += w.steps
		w.cov.Events += w.events
	}()
	runtime.VerifSetHook(hook)
	runtime.VerifSetNow(clock)
	runtime.VerifSetBlock(blocked)
	runtime.VerifOwn()
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(*Violation); ok {
				v = x
				w.event("violation " + x.What)
				return
			}
			panic(r)
		}
	}()
	if len(w.tasks) == 1 && !w.plan.Light {
		t := w.tasks[0]
		w.cur = t
		runtime.VerifSeed(true, t.mapS)
		t.runAll(t.plan.Pre)
		t.runAll(t.plan.Ops)
		return nil
	}
	return w.runTasks()
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		infra("%v", err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		infra("%v", err)
	}
	return q
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}
