package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	explore       bool
	preempt       int
	delay         int
	hold          bool
	maxSteps      int64
	maxDepth      int
	mapOrder      bool
	mergeInts     bool
	mustTerminate bool
	race          bool
	logPanics     bool
	okDeadlock    bool
	workers       int
	budget        time.Duration
	maxPaths      int64
	maxViol       int
	noBigModel    bool
}

type Explorer struct {
	name   string
	opt    Options
	params map[string]int
	entry  *ssa.Function
	setup  *ssa.Function
	sh     *SolverShared
	inits  []*ssa.Package
	allow  map[string]bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*taskPrefix
	active  int
	hungry  atomic.Int32
	stopped atomic.Bool
	started time.Time

	incomplete atomic.Bool
	depthHit   atomic.Bool

	paths          int64
	pathsAssume    int64
	choices        int64
	assertConcrete int64
	assertSMT      int64
	instrs         int64
	vmu            sync.Mutex
	viols          []*Violation
	violKeys       map[string]bool
	notes          map[string]int
	unsup          map[string]int
	reached        map[string]bool
	covered        map[*Fn]bool
	stubs          map[string]int64
	samples        []map[string]string
	sampleEvery    int64
	initSteps      int64
	initMS         int64
	first          *taskPrefix
}

func (x *Explorer) allowInit(path string) bool { return x.allow[path] || allowPkg(path) }

func (x *Explorer) note(s string) {
	x.vmu.Lock()
	x.notes[s]++
	x.vmu.Unlock()
}

func (x *Explorer) unsupported(s string) {
	x.incomplete.Store(true)
	x.vmu.Lock()
	x.unsup[s]++
	x.vmu.Unlock()
}

func (x *Explorer) addViolation(v *Violation) {
	x.vmu.Lock()
	defer x.vmu.Unlock()
	k := v.Kind + "|" + v.Msg
	if x.violKeys[k] {
		return
	}
	x.violKeys[k] = true
	x.viols = append(x.viols, v)
	if len(x.viols) >= x.opt.maxViol {
		x.stopped.Store(true)
	}
}

func (x *Explorer) push(t *taskPrefix) {
	x.mu.Lock()
	x.queue = append(x.queue, t)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) pop() *taskPrefix {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.active--
	for {
		if len(x.queue) > 0 {
			t := x.queue[0]
			x.queue = x.queue[1:]
			x.active++
			return t
		}
		if x.active == 0 || x.stopped.Load() {
			x.stopped.Store(true)
			x.cond.Broadcast()
			return nil
		}
		x.hungry.Add(1)
		x.cond.Wait()
		x.hungry.Add(-1)
	}
}

func (x *Explorer) Run() {
	x.started = time.Now()
	x.cond = sync.NewCond(&x.mu)
	x.notes = map[string]int{}
	x.unsup = map[string]int{}
	x.reached = map[string]bool{}
	x.covered = map[*Fn]bool{}
	x.stubs = map[string]int64{}
	x.violKeys = map[string]bool{}
	x.sampleEvery = 1
	x.active = x.opt.workers
	x.queue = []*taskPrefix{{}}
	if x.first != nil {
		x.queue = []*taskPrefix{x.first}
	}
	var wg sync.WaitGroup
	for i := 0; i < x.opt.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(i, x)
			defer w.S.stop()
			first := true
			for {
				t := x.pop()
				if t == nil {
					break
				}
				if first {
					if !w.boot() {
						x.stopped.Store(true)
						x.cond.Broadcast()
						break
					}
					first = false
				}
				w.runTask(t)
			}
			x.vmu.Lock()
			for k := range w.reached {
				x.reached[k] = true
			}
			for k := range w.covered {
				x.covered[k] = true
			}
			for k, n := range w.stubUse {
				x.stubs[k] += n
			}
			x.vmu.Unlock()
		}(i)
	}
	wg.Wait()
}

func newWorker(id int, x *Explorer) *Worker {
	w := &Worker{id: id, X: x, C: NewTermCtx(), S: &Solver{sh: x.sh}}
	w.sync = map[*Value]*syncObj{}
	w.names = map[string]int{}
	w.reached = map[string]bool{}
	w.covered = map[*Fn]bool{}
	w.stubUse = map[string]int64{}
	return w
}

// boot runs package initialisers and the harness's setup function concretely.
func (w *Worker) boot() (ok bool) {
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			ok = false
			if pe, isPE := r.(pathEnd); isPE {
				w.X.note("boot failed: " + pe.why + " at " + w.pos() + w.stack())
			} else {
				w.X.note(fmt.Sprintf("boot crashed: %v at %s\n%s", r, w.pos()+w.stack(), debug.Stack()))
			}
			w.X.incomplete.Store(true)
		}
		w.initPhase = false
		w.noTrail = false
		atomic.StoreInt64(&w.X.initMS, time.Since(t0).Milliseconds())
		atomic.StoreInt64(&w.X.initSteps, w.steps)
	}()
	w.initPhase = true
	w.noTrail = true
	save := w.X.opt.maxSteps
	_ = save
	for _, p := range w.X.inits {
		w.runInit(p.Func("init"))
	}
	w.setEmbeds()
	if w.X.setup != nil {
		w.runInit(w.X.setup)
	}
	// Base snapshot: goroutines left blocked by the setup.
	w.cur = nil
	for _, g := range w.gs {
		if g.status != gDone {
			if g.top != nil {
				freeze(g.top)
			}
			w.base = append(w.base, gsnap{g, *g})
		}
	}
	w.baseNext = w.nextG
	w.baseLast = w.lastG
	w.trail = w.trail[:0]
	return true
}

func (w *Worker) runInit(f *ssa.Function) {
	g := w.spawn(nil, fnOf(f), nil, nil)
	w.main = g
	w.cur = g
	for g.status != gDone {
		if w.cur == nil || w.cur.status != gRunnable {
			w.cur = nil
			if !w.pick() {
				panic(pathEnd{"deadlock in setup"})
			}
		}
		w.steps = 0
		w.runGoroutine()
		if w.cur != nil && w.cur.status == gRunnable {
			w.lastG = w.cur.id
			w.cur = nil
		}
	}
	// let the others settle
	for n := 0; n < 100000; n++ {
		w.cur = nil
		if !w.pick() {
			break
		}
		w.steps = 0
		w.runGoroutine()
	}
	w.cur = nil
}

func (w *Worker) runTask(t *taskPrefix) {
	x := w.X
	w.undoTo(0)
	w.gs = w.gs[:0:0]
	for i := range w.base {
		s := &w.base[i]
		*s.g = s.c
		w.gs = append(w.gs, s.g)
	}
	w.nextG = w.baseNext
	w.lastG = w.baseLast
	w.gone = nil
	w.cps = w.cps[:0]
	w.pc = w.pc[:0]
	w.implied = w.implied[:0]
	w.confirmed = map[*Term]bool{}
	w.log = w.log[:0]
	w.iDecs = w.iDecs[:0]
	w.forced = w.forced[:0]
	w.fpos = 0
	w.inputs = w.inputs[:0]
	w.events = w.events[:0]
	w.steps = 0
	w.npreempt = 0
	w.ndelay = 0
	w.nsched = 0
	w.atomicDepth = 0
	for k := range w.names {
		delete(w.names, k)
	}
	w.replay = t.decs
	w.rpos = 0
	w.rmodel = t.model
	w.setModel(t.model)
	if x.opt.race {
		w.race = newRace()
	}
	g := w.spawn(nil, fnOf(x.entry), nil, nil)
	w.main = g
	w.cur = g
	for {
		why := w.runPath()
		w.confirm()
		n := atomic.AddInt64(&x.paths, 1)
		atomic.AddInt64(&x.instrs, w.steps)
		switch why {
		case "assume":
			atomic.AddInt64(&x.pathsAssume, 1)
		case "done":
			if n >= atomic.LoadInt64(&x.sampleEvery) {
				x.vmu.Lock()
				if n >= x.sampleEvery && len(x.samples) < 64 {
					x.samples = append(x.samples, w.inputVals())
					x.sampleEvery = x.sampleEvery*3/2 + 1
				}
				x.vmu.Unlock()
			}
		case "crash":
			return
		}
		if w.race != nil {
			// Race metadata is rebuilt per path (no undo): see race.go.
			w.race.pathEnd(w)
		}
		if x.stopped.Load() {
			return
		}
		if x.opt.maxPaths > 0 && n >= x.opt.maxPaths {
			x.note("path budget reached")
			x.incomplete.Store(true)
			x.stopped.Store(true)
			x.cond.Broadcast()
			return
		}
		if n&15 == 0 && time.Since(x.started) > x.opt.budget {
			x.note("time budget reached")
			x.incomplete.Store(true)
			x.stopped.Store(true)
			x.cond.Broadcast()
			return
		}
		if !w.backtrack() {
			return
		}
	}
}

// runPath runs the program until the end of the current path.
func (w *Worker) runPath() (why string) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				why = pe.why
				return
			}
			why = "crash"
			w.X.incomplete.Store(true)
			w.X.note(fmt.Sprintf("engine crash: %v at %s", r, w.pos()+w.stack()))
			if os.Getenv("GOSYM_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "engine crash: %v at %s\n%s\n", r, w.pos()+w.stack(), debug.Stack())
			}
		}
	}()
	for {
		if w.main.status == gDone {
			return "done"
		}
		if w.cur == nil {
			if !w.pick() {
				if w.X.opt.okDeadlock {
					return "done"
				}
				w.violation("deadlock", "all goroutines are blocked")
				return "deadlock"
			}
		}
		w.runGoroutine()
		if w.cur != nil && !w.switched {
			if w.cur.status != gRunnable || w.cur.phase == 2 {
				w.lastG = w.cur.id
				w.cur = nil
			}
		}
		w.switched = false
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
