package main

// Driving many runs over several processes, and reporting.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1800 << 20)
	if len(os.Args) < 2 {
		usage()
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "check":
		need(a, 4)
		check(a[0], a[1], num(a[2]), a[3])
	case "worker":
		need(a, 8)
		worker(a[0], num(a[1]), int(num(a[2])), int(num(a[3])), int(num(a[4])), int(num(a[5])), a[6], a[7])
	case "one":
		need(a, 3)
		one(a[0], num(a[1]), int(num(a[2])), len(a) > 3)
	case "plan":
		need(a, 3)
		runtime.GOMAXPROCS(1)
		b, _ := json.MarshalIndent(generate(a[0], num(a[1]), int(num(a[2]))), "", " ")
		fmt.Println(string(b))
	case "hashes":
		need(a, 4)
		hashes(a[0], num(a[1]), int(num(a[2])), int(num(a[3])))
	case "replay":
		need(a, 1)
		replay(a[0], len(a) > 1)
	case "shrink":
		need(a, 2)
		shrinkFile(a[0], a[1])
	default:
		usage()
	}
}

func usage() {
	infra("usage: sim check PROP TIER SEED DIR | replay FILE [-v] | one PROP SEED INDEX [-v] | plan PROP SEED INDEX | hashes PROP SEED FROM TO")
}

func need(a []string, n int) {
	if len(a) < n {
		usage()
	}
}

func num(s string) uint64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		u, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			infra("bad number %q", s)
		}
		return u
	}
	return uint64(n)
}

// freshen brings the memory manager into the same state before every run:
// pools are empty, and no collection happens during a run.
func freshen() {
	runtime.GC()
	runtime.GC()
}

// ---------------------------------------------------------------- one process

type found struct {
	Index int        `json:"index"`
	V     *Violation `json:"v"`
}

type workerOut struct {
	Cov     *Coverage      `json:"cov"`
	States  []uint64       `json:"states"`
	Inter   []uint64       `json:"inter"`
	Sites   []int          `json:"sites"`
	Found   *found         `json:"found,omitempty"`
	Other   map[string]int `json:"other,omitempty"` // violations of other properties
	Hashes  map[int]uint64 `json:"hashes"`
	Done    int            `json:"done"`
	Samples []string       `json:"samples"`
	Nontriv int64          `json:"nontriv"`
}

const hashedRuns = 64

func worker(prop string, seed uint64, from, step, count, secs int, dir, name string) {
	runtime.GOMAXPROCS(1)
	out := workerOut{Cov: newCoverage(), Hashes: map[int]uint64{}, Other: map[string]int{}}
	status, err := os.Create(filepath.Join(dir, name+".at"))
	if err != nil {
		infra("%v", err)
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for i := from; i < count; i += step {
		if time.Now().After(end) {
			break
		}
		if out.Done%16 == 0 {
			if b, err := os.ReadFile(filepath.Join(dir, "stop")); err == nil {
				if n, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil && i > n {
					break
				}
			}
		}
		var buf [16]byte
		copy(buf[:], fmt.Sprintf("%-16d", i))
		status.WriteAt(buf[:], 0)
		freshen()
		p := generate(prop, seed, i)
		w := newWorld(p, out.Cov)
		f0 := faultCount(out.Cov)
		s0 := len(out.Cov.States)
		v := w.Run()
		out.Done++
		if faultCount(out.Cov) > f0 || len(out.Cov.States) > s0 || w.cov.Switches > 0 {
			out.Nontriv++
		}
		if i < hashedRuns {
			out.Hashes[i] = w.log
		}
		if len(out.Samples) < 1 && i >= 8 || i == 3 {
			out.Samples = append(out.Samples, summary(p))
		}
		if v != nil {
			if v.of(prop) {
				out.Found = &found{i, v}
				break
			}
			out.Other[strings.Join(v.Props, ",")+": "+v.What]++
			for _, q := range v.Props {
				out.Cov.Foreign[q]++
			}
		}
	}
	for k := range out.Cov.States {
		out.States = append(out.States, k)
	}
	for k := range out.Cov.Inter {
		out.Inter = append(out.Inter, k)
	}
	for i, b := range out.Cov.Sites {
		if b {
			out.Sites = append(out.Sites, i)
		}
	}
	b, err := json.Marshal(&out)
	if err != nil {
		infra("%v", err)
	}
	tmp := filepath.Join(dir, name+".tmp")
	if err := os.WriteFile(tmp, b, 0o600); err != nil {
		infra("%v", err)
	}
	os.Rename(tmp, filepath.Join(dir, name+".json"))
}

func faultCount(c *Coverage) (n int64) {
	for _, v := range c.Faults {
		n += v
	}
	return
}

func one(prop string, seed uint64, i int, verbose bool) {
	runtime.GOMAXPROCS(1)
	freshen()
	p := generate(prop, seed, i)
	var tr func(string)
	if verbose {
		tr = func(s string) { fmt.Println(s) }
		b, _ := json.Marshal(p)
		fmt.Println(string(b))
	}
	v, log := runPlan(p, tr)
	fmt.Printf("log %016x\n", log)
	if v != nil {
		fmt.Printf("%s run %d: %v (task %d, op %d): %s\n", prop, i, v.Props, v.Task, v.Op, v.What)
		os.Exit(1)
	}
}

func hashes(prop string, seed uint64, from, to int) {
	runtime.GOMAXPROCS(1)
	for i := from; i < to; i++ {
		freshen()
		var tr func(string)
		if i == to-1 && os.Getenv("SIM_TRACE") != "" {
			tr = func(s string) { fmt.Println(s) }
		}
		_, log := runPlan(generate(prop, seed, i), tr)
		fmt.Printf("%d %016x\n", i, log)
	}
}

// ---------------------------------------------------------------- replay files

type replayFile struct {
	Property  string     `json:"property"`
	Seed      uint64     `json:"seed"`
	Index     int        `json:"index"`
	Violation *Violation `json:"violation"`
	Prelude   []int      `json:"prelude,omitempty"` // runs of the same seed done before in the same process
	Fatal     string     `json:"fatal,omitempty"`   // the process itself ended this way
	Tries     int        `json:"shrink_tries"`
	Plan      *Plan      `json:"plan"`
	Trace     []string   `json:"trace,omitempty"`
	Note      string     `json:"note,omitempty"`
}

func readReplay(f string) *replayFile {
	b, err := os.ReadFile(f)
	if err != nil {
		infra("%v", err)
	}
	r := &replayFile{}
	if err := json.Unmarshal(b, r); err != nil || r.Plan == nil {
		infra("%s is no replay file: %v", f, err)
	}
	return r
}

func writeReplay(f string, r *replayFile) {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		infra("%v", err)
	}
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		infra("%v", err)
	}
}

// replay runs a replay file: exit status 1 if the violation is there again.
func replay(f string, verbose bool) {
	runtime.GOMAXPROCS(1)
	r := readReplay(f)
	for _, i := range r.Prelude {
		freshen()
		runPlan(generate(r.Property, r.Seed, i), nil)
	}
	freshen()
	var tr func(string)
	if verbose {
		tr = func(s string) { fmt.Println(s) }
	}
	v, log := runPlan(r.Plan, tr)
	fmt.Printf("log %016x\n", log)
	if v == nil {
		fmt.Println("no violation")
		return
	}
	same := "the same as recorded"
	if r.Violation == nil || v.What != r.Violation.What {
		same = "not the same as recorded"
	}
	fmt.Printf("violation of %s, %s, at operation %d of task %d: %s\n", strings.Join(v.Props, " "), same, v.Op, v.Task, v.What)
	if v.of(r.Property) {
		os.Exit(1)
	}
	fmt.Println("no violation of", r.Property)
}

func shrinkFile(in, out string) {
	runtime.GOMAXPROCS(1)
	r := readReplay(in)
	freshen()
	v, _ := runPlan(r.Plan.clone(), nil)
	if v == nil || !v.of(r.Property) {
		infra("nothing to shrink")
	}
	p, v, n := shrink(r.Plan, v, 40*time.Second)
	r.Plan, r.Violation, r.Tries = p, v, n
	freshen()
	runPlan(p.clone(), func(s string) {
		if len(r.Trace) < 400 {
			r.Trace = append(r.Trace, s)
		}
	})
	writeReplay(out, r)
}

// ---------------------------------------------------------------- check

type tierSpec struct {
	count int
	secs  int
}

// runs per property of the quick tier, chosen to take about a minute on 8 cores
var quickRuns = map[string]int{
	"C01": 100000,
	"C02": 110000,
	"C03": 130000,
	"C04": 130000,
	"C05": 140000,
	"C06": 110000,
	"C07": 70000,
	"C08": 90000,
	"C09": 100000,
	"C10": 16000,
	"C11": 150000,
	"C12": 180000,
	"C13": 110000,
	"C14": 30000,
	"C15": 90000,
	"C16": 70000,
	"C17": 140000,
	"C18": 90000,
}

func tierOf(prop, tier string) tierSpec {
	if tier == "thorough" {
		return tierSpec{1 << 40, 600}
	}
	n := quickRuns[prop]
	if n == 0 {
		n = 4000
	}
	if s := os.Getenv("SIM_RUNS"); s != "" {
		n = int(num(s))
	}
	return tierSpec{n, 300}
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		infra("%v", err)
	}
	return p
}

type procResult struct {
	code   int
	out    string
	signal bool
	hung   bool
}

func runSelf(limit time.Duration, args ...string) procResult {
	c := exec.Command(self(), args...)
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil {
		infra("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var r procResult
	select {
	case <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		r.hung = true
	}
	r.code = c.ProcessState.ExitCode()
	r.out = b.String()
	return r
}

const runLimit = 90 * time.Second // wall time no run comes near

func check(prop, tier string, seed uint64, dir string) {
	start := time.Now()
	if generators[prop] == nil {
		infra("unknown property %q", prop)
	}
	ts := tierOf(prop, tier)
	tmp, err := os.MkdirTemp("", "winres-check-")
	if err != nil {
		infra("%v", err)
	}
	defer os.RemoveAll(tmp)
	os.Setenv("TMPDIR", tmp)
	fmt.Printf("property %s, tier %s, seed %d, up to %d runs\n", prop, tier, seed, ts.count)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	type result struct {
		out   *workerOut
		code  int
		at    int
		text  string
		hung  bool
		began bool
	}
	res := make([]result, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stopAt := -1
	stop := func(i int) {
		mu.Lock()
		defer mu.Unlock()
		if stopAt < 0 || i < stopAt {
			stopAt = i
			os.WriteFile(filepath.Join(tmp, "stop.tmp"), []byte(fmt.Sprint(i)), 0o600)
			os.Rename(filepath.Join(tmp, "stop.tmp"), filepath.Join(tmp, "stop"))
		}
	}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := &res[k]
			name := fmt.Sprintf("w%d", k)
			c := exec.Command(self(), "worker", prop, fmt.Sprint(int64(seed)), fmt.Sprint(k), fmt.Sprint(n), fmt.Sprint(ts.count), fmt.Sprint(ts.secs), tmp, name)
			var b bytes.Buffer
			c.Stdout, c.Stderr = &b, &b
			if err := c.Start(); err != nil {
				infra("%v", err)
			}
			done := make(chan error, 1)
			go func() { done <- c.Wait() }()
			last, lastT := "", time.Now()
		loop:
			for {
				select {
				case <-done:
					break loop
				case <-time.After(time.Second):
					b, _ := os.ReadFile(filepath.Join(tmp, name+".at"))
					if string(b) != last {
						last, lastT = string(b), time.Now()
					} else if time.Since(lastT) > runLimit {
						c.Process.Kill()
						<-done
						r.hung = true
						break loop
					}
				}
			}
			r.code = c.ProcessState.ExitCode()
			r.text = b.String()
			at, _ := os.ReadFile(filepath.Join(tmp, name+".at"))
			r.at, err = strconv.Atoi(strings.TrimSpace(string(at)))
			r.began = err == nil
			if r.code == 0 && !r.hung {
				o := &workerOut{}
				b, err := os.ReadFile(filepath.Join(tmp, name+".json"))
				if err != nil {
					infra("worker left no result: %v\n%s", err, r.text)
				}
				if err := json.Unmarshal(b, o); err != nil {
					infra("%v", err)
				}
				r.out = o
				if o.Found != nil {
					stop(o.Found.Index)
				}
			} else if r.began {
				stop(r.at)
			}
		}(k)
	}
	wg.Wait()
	tot := workerOut{Cov: newCoverage(), Hashes: map[int]uint64{}, Other: map[string]int{}}
	states, inter, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	var worst *found
	var died *result
	for k := range res {
		r := &res[k]
		if r.out == nil {
			if !r.began || strings.Contains(r.text, "simulator trouble") {
				os.RemoveAll(tmp)
				infra("worker %d ended with status %d\n%s", k, r.code, tail(r.text))
			}
			if died == nil || r.at < died.at {
				died = r
			}
			continue
		}
		o := r.out
		tot.Done += o.Done
		tot.Nontriv += o.Nontriv
		tot.Cov.Runs += o.Cov.Runs
		tot.Cov.Ops += o.Cov.Ops
		tot.Cov.Steps += o.Cov.Steps
		tot.Cov.Events += o.Cov.Events
		tot.Cov.Switches += o.Cov.Switches
		tot.Cov.ClockS += o.Cov.ClockS
		tot.Cov.ClockReads += o.Cov.ClockReads
		tot.Cov.ClockBack += o.Cov.ClockBack
		addMap(tot.Cov.Faults, o.Cov.Faults)
		addMap(tot.Cov.OpKinds, o.Cov.OpKinds)
		addMap(tot.Cov.Foreign, o.Cov.Foreign)
		for k, v := range o.Other {
			tot.Other[k] += v
		}
		for _, s := range o.States {
			states[s] = true
		}
		for _, s := range o.Inter {
			inter[s] = true
		}
		for _, s := range o.Sites {
			sites[s] = true
		}
		for k, v := range o.Hashes {
			tot.Hashes[k] = v
		}
		tot.Samples = append(tot.Samples, o.Samples...)
		if o.Found != nil && (worst == nil || o.Found.Index < worst.Index) {
			worst = o.Found
		}
	}
	mismatch, compared := selfTest(prop, seed, &tot, worst, died != nil)
	replayPath := ""
	var what string
	if died != nil && (worst == nil || died.at < worst.Index) {
		replayPath, what = reportDeath(prop, seed, died.at, died.text, dir)
		if replayPath == "" && worst == nil && (died.hung || died.code < 0) && tot.Done > 0 {
			// stalled or killed by the machine: that run alone ends well
			fmt.Printf("note: a worker was stopped (%d) at run %d, which alone ends well\n", died.code, died.at)
		} else if replayPath == "" && worst == nil {
			os.RemoveAll(tmp)
			infra("a worker ended with status %d at run %d, which alone ends well\n%s", died.code, died.at, tail(died.text))
		}
	}
	if replayPath == "" && worst != nil {
		replayPath, what = reportFound(prop, seed, worst, n, dir, tmp)
	}
	wall := time.Since(start).Seconds()
	writeEvidence(prop, tier, seed, dir, &tot, len(states), len(inter), len(sites), wall, n, mismatch, compared, replayPath != "")
	fmt.Printf("%d runs, %d operations, %d steps, %d distinct states, %d interleavings, %d of %d sites, %.1f s\n", tot.Cov.Runs, tot.Cov.Ops, tot.Cov.Steps, len(states), len(inter), len(sites), siteCount(), wall)
	if len(tot.Other) > 0 {
		fmt.Println("runs that stopped at a violation of another property:")
		i := 0
		for k, v := range tot.Other {
			if i++; i > 5 {
				break
			}
			fmt.Printf("  %d x %s\n", v, k)
		}
	}
	if mismatch > 0 {
		fmt.Printf("warning: %d of %d runs did not repeat exactly in another process\n", mismatch, compared)
	}
	if replayPath != "" {
		os.RemoveAll(tmp)
		fmt.Println(what)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		os.Exit(1)
	}
	fmt.Printf("%s held in every run\n", prop)
}

func tail(s string) string {
	if len(s) > 3000 {
		s = s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

func addMap(a, b map[string]int64) {
	for k, v := range b {
		a[k] += v
	}
}

func siteCount() int {
	f, err := os.Open(filepath.Join(filepath.Dir(self()), "sites.txt"))
	if err != nil {
		return 0
	}
	defer f.Close()
	n := 0
	for s := bufio.NewScanner(f); s.Scan(); {
		n++
	}
	return n
}

// selfTest executes the first runs again in another process and compares the
// complete event logs.
func selfTest(prop string, seed uint64, tot *workerOut, worst *found, died bool) (mismatch, compared int) {
	if died {
		return
	}
	max := hashedRuns
	if worst != nil && worst.Index < max {
		max = worst.Index
	}
	r := runSelf(10*time.Minute, "hashes", prop, fmt.Sprint(int64(seed)), "0", fmt.Sprint(max))
	for _, l := range strings.Split(r.out, "\n") {
		var i int
		var h uint64
		if n, _ := fmt.Sscanf(l, "%d %x", &i, &h); n == 2 {
			if w, ok := tot.Hashes[i]; ok {
				compared++
				if w != h {
					mismatch++
				}
			}
		}
	}
	return
}

func replayName(dir, prop string, seed uint64, i int) string {
	d := filepath.Join(dir, "replays")
	if err := os.MkdirAll(d, 0o755); err != nil {
		infra("%v", err)
	}
	return filepath.Join(d, fmt.Sprintf("%s-seed%d-run%d.json", prop, int64(seed), i))
}

func reportFound(prop string, seed uint64, f *found, step int, dir, tmp string) (string, string) {
	path := replayName(dir, prop, seed, f.Index)
	r := &replayFile{Property: prop, Seed: seed, Index: f.Index, Violation: f.V, Plan: generateIsolated(prop, seed, f.Index)}
	writeReplay(path, r)
	describe := func(v *Violation) string {
		return fmt.Sprintf("run %d breaks %s at operation %d of task %d: %s", f.Index, prop, v.Op, v.Task, v.What)
	}
	if runSelf(2*runLimit, "replay", path).code == 1 {
		small := filepath.Join(tmp, "small.json")
		if s := runSelf(3*time.Minute, "shrink", path, small); s.code == 0 {
			if runSelf(2*runLimit, "replay", small).code == 1 {
				q := readReplay(small)
				writeReplay(path, q)
				return path, describe(q.Violation)
			}
		}
		return path, describe(f.V)
	}
	// Something earlier in the process is part of it: state kept by the library
	// between operations on independent objects.
	var all []int
	for i := f.Index % step; i < f.Index; i += step {
		all = append(all, i)
	}
	for k := 1; ; k *= 2 {
		if k > len(all) {
			k = len(all)
		}
		r.Prelude = all[len(all)-k:]
		writeReplay(path, r)
		if runSelf(15*time.Minute, "replay", path).code == 1 {
			for len(r.Prelude) > 1 && k < 64 { // drop what is not needed
				x := r.Prelude
				r.Prelude = x[1:]
				writeReplay(path, r)
				if runSelf(2*time.Minute, "replay", path).code != 1 {
					r.Prelude = x
					break
				}
			}
			r.Note = "needs the earlier runs of prelude in the same process: the library keeps state between them"
			writeReplay(path, r)
			return path, describe(f.V)
		}
		if k == len(all) || k > 2000 {
			break
		}
	}
	r.Prelude = nil
	r.Note = "observed once, not reproduced alone"
	writeReplay(path, r)
	return path, describe(f.V)
}

func generateIsolated(prop string, seed uint64, i int) *Plan {
	r := runSelf(runLimit, "plan", prop, fmt.Sprint(int64(seed)), fmt.Sprint(i))
	p := &Plan{}
	if r.code != 0 {
		infra("generating a plan again: %s", tail(r.out))
	}
	if err := json.Unmarshal([]byte(r.out), p); err != nil {
		infra("generating a plan again: %v", err)
	}
	return p
}

// reportDeath deals with runs that end the process or never end.
func reportDeath(prop string, seed uint64, i int, text, dir string) (string, string) {
	r := runSelf(2*runLimit, "one", prop, fmt.Sprint(int64(seed)), fmt.Sprint(i))
	if !r.hung && (r.code == 0 || r.code == 1) || strings.Contains(r.out, "simulator trouble") {
		return "", ""
	}
	fatal := "the process ended"
	if r.hung {
		fatal = "the run did not end"
	} else {
		for _, l := range strings.Split(r.out, "\n") {
			if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime: ") {
				fatal = l
				break
			}
		}
	}
	path := replayName(dir, prop, seed, i)
	rf := &replayFile{Property: prop, Seed: seed, Index: i, Fatal: fatal, Note: "replay with: sim one " + fmt.Sprint(prop, " ", int64(seed), " ", i)}
	rf.Plan = &Plan{Prop: prop}
	if p := runSelf(runLimit, "plan", prop, fmt.Sprint(int64(seed)), fmt.Sprint(i)); p.code == 0 {
		json.Unmarshal([]byte(p.out), rf.Plan)
	}
	rf.Violation = &Violation{Props: []string{"*"}, What: fatal}
	writeReplay(path, rf)
	return path, fmt.Sprintf("run %d breaks %s: %s", i, prop, fatal)
}

// ---------------------------------------------------------------- evidence

func summary(p *Plan) string {
	s := fmt.Sprintf("seed %016x:", p.Seed)
	for _, e := range p.Exes {
		k := ""
		for _, x := range e.Secs {
			k += " " + x.K
		}
		s += fmt.Sprintf(" exe[%d bits,%s, overlay %d, signature %d, checksum %d, %d resources]", e.Bits, k, e.Over, e.Sig, e.Sum, len(e.Res))
	}
	for _, i := range p.Icos {
		s += fmt.Sprintf(" %s[%d images]", kindOf(i.Cur), len(i.Im))
	}
	for _, v := range p.Vers {
		s += fmt.Sprintf(" version[%d strings]", len(v.S))
	}
	for ti, t := range p.Tasks {
		s += fmt.Sprintf(" task %d:", ti)
		for _, o := range append(append([]Op{}, t.Pre...), t.Ops...) {
			s += " " + o.O
			for _, x := range []*IOSpec{o.In, o.Out} {
				if x != nil {
					for _, f := range x.F {
						s += fmt.Sprintf("!%s-%s@%d/%d", f.On, f.K, f.At, f.N)
					}
				}
			}
			for _, d := range o.Dmg {
				s += fmt.Sprintf("!%s@%#x=%#x", d.K, d.At, d.V)
			}
		}
	}
	for _, w := range p.Sched {
		s += fmt.Sprintf(" switch %d@%d->%d", w.Task, w.Step, w.To)
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func writeEvidence(prop, tier string, seed uint64, dir string, t *workerOut, states, inter, sites int, wall float64, procs, mismatch, compared int, violated bool) {
	if len(t.Samples) > 4 {
		sort.Strings(t.Samples)
		t.Samples = t.Samples[:4]
	}
	rule := "Each run is generated from VERIF_SEED and its number alone: executables, icons, cursors, version information, operations, stream behaviour, faults and task switches. " +
		"distinct_nontrivial counts distinct abstract states observed by operations on streams and sets (operation, object shape, stream kind, chunking class, fault kinds with position decile, outcome)"
	distinct := states
	if prop == "C10" {
		rule += "; for this property it counts distinct interleavings (sequences of suspension site and successor task) with at least one switch that took place"
		distinct = inter
	}
	h := wall / 3600
	cov := map[string]interface{}{
		"evaluations":                   t.Cov.Runs,
		"distinct_nontrivial":           distinct,
		"rule":                          rule,
		"samples":                       t.Samples,
		"operations":                    t.Cov.Ops,
		"operations_by_kind":            t.Cov.OpKinds,
		"faults_injected_by_kind":       t.Cov.Faults,
		"distinct_states":               states,
		"distinct_interleavings":        inter,
		"task_switches":                 t.Cov.Switches,
		"simulated_time_steps":          t.Cov.Steps,
		"simulated_time_seconds":        t.Cov.ClockS + float64(t.Cov.Steps)/1e6,
		"clock_set_back":                t.Cov.ClockBack,
		"clock_reads":                   t.Cov.ClockReads,
		"simulated_time_note":           "steps are statements of the library and stream calls executed under the scheduler, a microsecond each; between operations the simulated clocks jump ahead or are set back; the library reads no clock today",
		"io_events":                     t.Cov.Events,
		"runs_per_hour":                 int64(float64(t.Cov.Runs) / h),
		"seeds_per_hour":                int64(float64(t.Cov.Runs) / h),
		"processes":                     procs,
		"library_statements_reached":    sites,
		"library_statements":            siteCount(),
		"runs_repeated_for_determinism": compared,
		"runs_that_differed":            mismatch,
		"runs_ended_by_other_property":  t.Cov.Foreign,
		"real_components":               []string{"all of winres and winres/version (built from /repo, each statement preceded by a yield point)", "Go standard library", "nfnt/resize", "x/image/bmp", "os.File, pipes and /dev/full on a scratch directory in a small part of the runs"},
		"simulated_components":          []string{"every io.Reader, io.Seeker, io.ReaderAt and io.Writer handed to the library", "task scheduling", "hash seeds and map iteration order", "wall and monotonic clock", "process crashes", "damage to stored bytes"},
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov, "wall_s": wall,
		"violations":  map[bool]int{false: 0, true: 1}[violated],
		"assumptions": []string{"sampled search: what no run reached is not covered", "the models and the independent PE, COFF, resource, icon and version readers in /verif/sim are right", "a task is suspended only between statements of the library or at stream calls"},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		infra("%v", err)
	}
	d := filepath.Join(dir, "evidence")
	if err := os.MkdirAll(d, 0o755); err != nil {
		infra("%v", err)
	}
	if err := os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0o644); err != nil {
		infra("%v", err)
	}
}
