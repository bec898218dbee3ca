package main

// The simulated scheduler: tasks run one at a time and are suspended only
// where the plan says so, at any statement of the library or I/O call.

import (
	"fmt"
	"runtime"
)

type scheduler struct {
	w     *World
	next  map[int][]Switch // per task, by step
	done  chan bool
	vio   *Violation
	bad   interface{}
	abort bool
	inter uint64
	n     int64
	waits int // times a task could not proceed since one last did
}

func (s *scheduler) at(t *Task, site int) {
	if s.abort {
		panic(stopSentinel{})
	}
	s.waits = 0
	l := s.next[t.id]
	if len(l) == 0 || t.step < l[0].Step {
		return
	}
	sw := l[0]
	s.next[t.id] = l[1:]
	to := sw.To % len(s.w.tasks)
	if to == t.id || s.w.tasks[to].done {
		return
	}
	s.inter = mix(s.inter ^ uint64(site)<<8 ^ uint64(to))
	s.n++
	s.w.event(fmt.Sprintf("switch from task %d at step %d (site %d) to task %d", t.id, t.step, site, to))
	s.leave(t, s.w.tasks[to])
}

// leave suspends t until it is resumed.
func (s *scheduler) leave(t, to *Task) {
	opSteps, quiet := s.w.opSteps, s.w.quiet
	s.w.quiet = 0
	s.resume(t, to)
	<-t.runCh
	runtime.VerifOwn()
	s.w.cur = t
	s.w.opSteps, s.w.quiet = opSteps, quiet
	if s.abort {
		panic(stopSentinel{})
	}
}

// blocked is called when the running task would wait for a lock which another
// task holds. The library has no locks today.
func blocked() bool {
	w := hookWorld
	if w == nil || w.cur == nil {
		return false
	}
	t := w.cur
	if s := w.sched; s != nil {
		if s.abort {
			panic(stopSentinel{})
		}
		if s.waits++; s.waits <= 3*len(w.tasks) {
			for k := 1; k < len(w.tasks); k++ {
				if o := w.tasks[(t.id+k)%len(w.tasks)]; !o.done {
					s.leave(t, o)
					return true
				}
			}
		}
	}
	panic(&Violation{Props: []string{"*"}, Task: t.id, Op: t.opIdx, What: "an operation waits for ever for a lock"})
}

// resume hands the processor over; the caller then waits.
func (s *scheduler) resume(from, to *Task) {
	st, _ := runtime.VerifSeed(true, to.mapS)
	if from != nil {
		from.mapS = st
	}
	s.w.cur = to
	to.runCh <- true
}

// finish ends a task and hands over to another one.
func (s *scheduler) finish(t *Task, r interface{}) {
	t.done = true
	if r != nil && !s.abort {
		switch v := r.(type) {
		case *Violation:
			s.vio = v
		case stopSentinel:
		default:
			s.bad = r
		}
		s.abort = true
	}
	for k := 1; k <= len(s.w.tasks); k++ {
		o := s.w.tasks[(t.id+k)%len(s.w.tasks)]
		if !o.done {
			s.resume(t, o)
			return
		}
	}
	s.done <- true
}

func (w *World) runTasks() *Violation {
	type alone struct {
		obs   []string
		steps int64
	}
	var ref []alone
	for i := range w.tasks {
		sw := newWorld(w.plan, w.cov)
		sw.trace = nil
		sw.ticks = uint64(i+1) << 32
		hookWorld = sw
		t := sw.tasks[i]
		sw.cur = t
		runtime.VerifSeed(true, t.mapS)
		t.inPre = true
		t.runAll(t.plan.Pre)
		t.inPre = false
		t.step = 0
		t.runAll(t.plan.Ops)
		ref = append(ref, alone{t.obs, t.step})
		w.steps += sw.steps
		w.events += sw.events
		w.log = mix(w.log ^ sw.log)
		sw.cleanup()
	}
	hookWorld = w
	for _, t := range w.tasks {
		w.cur = t
		runtime.VerifSeed(true, t.mapS)
		t.inPre = true
		t.runAll(t.plan.Pre)
		t.inPre = false
		t.mapS, _ = runtime.VerifSeed(true, 0)
		t.step = 0
		t.runCh = make(chan bool, 1)
	}
	s := &scheduler{w: w, next: map[int][]Switch{}, done: make(chan bool, 1)}
	for _, sw := range w.plan.Sched {
		id := sw.Task % len(w.tasks)
		l := s.next[id]
		k := len(l)
		for k > 0 && l[k-1].Step > sw.Step {
			k--
		}
		l = append(l, Switch{})
		copy(l[k+1:], l[k:])
		l[k] = sw
		s.next[id] = l
	}
	w.sched = s
	for _, t := range w.tasks {
		t := t
		go func() {
			<-t.runCh
			runtime.VerifOwn()
			var r interface{}
			func() {
				defer func() { r = recover() }()
				if s.abort {
					return
				}
				w.cur = t
				t.runAll(t.plan.Ops)
			}()
			s.finish(t, r)
		}()
	}
	s.resume(nil, w.tasks[0])
	<-s.done
	runtime.VerifOwn()
	w.sched = nil
	w.cov.Switches += s.n
	w.cov.Inter[s.inter] = true
	if s.bad != nil {
		panic(s.bad)
	}
	if s.vio != nil {
		// each task managed that alone
		if !s.vio.of("C10") {
			s.vio.Props = append(s.vio.Props, "C10")
		}
		panic(s.vio)
	}
	for i, t := range w.tasks {
		a, b := ref[i].obs, t.obs
		for k := 0; k < len(a) || k < len(b); k++ {
			x, y := "(nothing)", "(nothing)"
			if k < len(a) {
				x = a[k]
			}
			if k < len(b) {
				y = b[k]
			}
			if x != y {
				panic(&Violation{Props: []string{"C10"}, Task: i, Op: -1,
					What: fmt.Sprintf("task %d alone observes %q, interleaved it observes %q", i, x, y)})
			}
		}
	}
	return nil
}

// soloSteps tells which yield points each task passes when it runs alone.
func soloSteps(p *Plan) (steps []int64, where [][]int32, v *Violation) {
	for i := range p.Tasks {
		q := *p
		q.Sched = nil
		w := newWorld(&q, newCoverage())
		n := int64(0)
		var at []int32
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(*Violation); ok {
						v = x
						return
					}
					panic(r)
				}
			}()
			hookWorld = w
			runtime.VerifSetHook(hook)
			runtime.VerifSetNow(clock)
			runtime.VerifSetBlock(blocked)
			runtime.VerifOwn()
			t := w.tasks[i]
			w.cur = t
			runtime.VerifSeed(true, t.mapS)
			t.inPre = true
			t.runAll(t.plan.Pre)
			t.inPre = false
			t.step = 0
			t.where = &at
			t.runAll(t.plan.Ops)
			n = t.step
		}()
		hookWorld = nil
		runtime.VerifSeed(false, 0)
		w.cleanup()
		steps = append(steps, n)
		where = append(where, at)
	}
	return
}
