package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Execution state of one worker: heap (native Go memory plus an undo trail),
// goroutines with persistent frame stacks, path condition and choice points.

type deferRec struct {
	next *deferRec
	fn   *Fn
	env  []Value
	args []Value
	bi   *Instr // builtin call
}

type panicRec struct {
	val   Value
	pos   token.Pos
	where string
	rt    bool
}

const (
	fmNormal = iota
	fmRunDefers
	fmPanicking
	fmRecovered
)

type Frame struct {
	fn      *Fn
	env     []Value
	caller  *Frame
	blk     *Block
	prev    int
	pc      int
	ret     int32
	frozen  bool
	isDefer bool
	mode    uint8
	defers  *deferRec
	pan     *panicRec
	depth   int
}

const (
	gRunnable = iota
	gBlocked
	gDone
)

type G struct {
	id      int
	top     *Frame
	status  uint8
	ready   func() bool
	why     string
	skip    bool
	phase   uint8
	tick    int
	wakeVal Value
	wakeOk  bool
	wakeIdx int
	vc      VC
	name    string
	preempt bool
	lazy    bool
	held    bool
	blockAt string
}

type trailEnt struct {
	p   *Value
	old Value
	f   func()
}

type dec struct {
	alt     int32
	n       int32 // the number of alternatives of a free choice
	implied bool
	fast    bool // decided by oneByte
}

type gsnap struct {
	g *G
	c G
}

type alternative struct {
	alt   int32
	n     int32
	con   *Term // constraint to add, or nil
	mod   Model // model known to satisfy, or nil
	known bool
}

type choicePoint struct {
	gs       []gsnap
	cur      *G
	trail    int
	pc       int
	logLen   int
	instrDec []dec
	pcAt     int // pc length at the decision (within the instruction)
	alts     []alternative
	model    Model
	npreempt int
	ndelay   int
	lastG    int
	gone     VC
	steps    int64
	inputs   int
	evs      int
	nsched   int
	atomicD  int
	impAt    int
}

type inputRec struct {
	name string
	kind string // int byte bool string rat choice sched
	t    *Term
	ts   []Value
	n    int64
}

type taskPrefix struct {
	decs  []dec
	model Model
}

type pathEnd struct{ why string }

type Worker struct {
	id int
	X  *Explorer
	C  *TermCtx
	S  *Solver

	globals []*Value
	trail   []trailEnt
	gs      []*G
	cur     *G
	nextG   int
	main    *G

	pc    []*Term
	model Model
	cps   []*choicePoint

	implied   []*Term
	confirmed map[*Term]bool
	fast      bool // the last decision was oneByte's

	log    []dec
	replay []dec
	rpos   int
	rmodel Model

	forced []dec
	fpos   int

	iTrail int
	iPC    int
	iLog   int
	iDecs  []dec
	iNext  int64

	base     []gsnap
	baseLast int
	gone     VC // the clocks of goroutines that have ended
	baseNext int
	noTrail  bool

	steps    int64
	npreempt int
	ndelay   int
	nsched   int
	inputs   []inputRec
	events   []string
	names    map[string]int
	params   map[string]int

	sync map[*Value]*syncObj
	race *raceState

	inMain    bool
	chanN     int
	initPhase bool
	curPos    token.Pos

	// per-path results
	reached  map[string]bool
	covered  map[*Fn]bool
	instrN   int64
	stubUse  map[string]int64
	tracing  bool
	noSpec   bool
	switched bool
	lastG    int

	atomicDepth int
	concrete    map[string]concreteVal // replay values
	curTask     int
	ctxBase     int
}

func (w *Worker) set(p *Value, v Value) {
	if !w.noTrail {
		w.trail = append(w.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) undoFn(f func()) {
	if !w.noTrail {
		w.trail = append(w.trail, trailEnt{f: f})
	}
}

func (w *Worker) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(v) {
			for i := range v {
				w.store(&old[i], v[i])
			}
			return
		}
		w.set(p, copyVal(v))
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(v) {
			for i := range v {
				w.store(&old[i], v[i])
			}
			return
		}
		w.set(p, copyVal(v))
	default:
		w.set(p, v)
	}
}

func (w *Worker) undoTo(n int) {
	for i := len(w.trail) - 1; i >= n; i-- {
		e := &w.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
		*e = trailEnt{}
	}
	w.trail = w.trail[:n]
}

// get reads an operand.
func (w *Worker) get(fr *Frame, o *opnd) Value {
	if o.k >= 0 {
		return fr.env[o.k]
	}
	if o.k == kConst {
		return o.v
	}
	return w.global(o.g)
}

func (w *Worker) global(i int32) *Value {
	for int(i) >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}
	if w.globals[i] == nil {
		P.gmu.Lock()
		g := P.globalL[i]
		P.gmu.Unlock()
		c := new(Value)
		*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.globals[i] = c
	}
	return w.globals[i]
}

func (w *Worker) globalByName(pkg *ssa.Package, name string) *Value {
	g := pkg.Var(name)
	if g == nil {
		return nil
	}
	return w.global(P.globalIdx(g))
}

func freeze(fr *Frame) {
	for ; fr != nil && !fr.frozen; fr = fr.caller {
		fr.frozen = true
	}
}

func cloneFrame(fr *Frame) *Frame {
	n := *fr
	n.env = make([]Value, len(fr.env))
	copy(n.env, fr.env)
	n.frozen = false
	return &n
}

// unfreeze makes g's top frame writable.
func (g *G) unfreeze() *Frame {
	if g.top.frozen {
		g.top = cloneFrame(g.top)
	}
	return g.top
}

func (w *Worker) snapshot() *choicePoint {
	cp := &choicePoint{
		cur: w.cur, trail: w.iTrail, pc: w.iPC, logLen: w.iLog,
		pcAt: len(w.pc), npreempt: w.npreempt, ndelay: w.ndelay, lastG: w.lastG, gone: w.gone, steps: w.steps, model: w.model,
		nsched: w.nsched, atomicD: w.atomicDepth, impAt: len(w.implied),
	}
	cp.instrDec = append([]dec(nil), w.iDecs...)
	cp.gs = make([]gsnap, len(w.gs))
	for i, g := range w.gs {
		s := gsnap{g: g, c: *g}
		if g.top != nil {
			if g == w.cur && !g.top.frozen {
				freeze(g.top.caller)
				c := cloneFrame(g.top)
				c.frozen = true
				s.c.top = c
			} else {
				freeze(g.top)
			}
		}
		cp.gs[i] = s
	}
	return cp
}

func (w *Worker) restoreGs(gs []gsnap) {
	w.gs = w.gs[:0]
	for i := range gs {
		s := &gs[i]
		*s.g = s.c
		w.gs = append(w.gs, s.g)
	}
}

func (w *Worker) setModel(m Model) {
	w.model = m
	w.C.epoch++
}

func (w *Worker) addPC(t *Term) {
	if t == w.C.True {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			w.pc = append(w.pc, a)
		}
		return
	}
	w.pc = append(w.pc, t)
}

// slice returns the constraints of the path condition that share variables
// (transitively) with t, followed by t.
func (w *Worker) slice(t *Term) []*Term {
	if len(t.vars) == 0 {
		return []*Term{t}
	}
	in := map[int32]bool{}
	for _, v := range t.vars {
		in[v] = true
	}
	used := make([]bool, len(w.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range c.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	seen := map[*Term]bool{}
	for i, c := range w.pc {
		if used[i] && !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return append(out, t)
}

// feasible decides whether t is consistent with the path condition; on Sat
// it returns a model extending the current one.
func (w *Worker) feasible(t *Term) (SatResult, Model) {
	if t == w.C.True {
		return Sat, w.model
	}
	if t == w.C.False {
		return Unsat, nil
	}
	return w.decide(t, true)
}

// decide is feasible; fast allows the procedure for single bytes.
func (w *Worker) decide(t *Term, fast bool) (SatResult, Model) {
	w.fast = false
	cons := w.slice(t)
	if val, vi, sat, ok := w.oneByte(cons); fast && ok {
		w.S.sh.OneByte.Add(1)
		w.fast = true
		if !sat {
			return Unsat, nil
		}
		n := make(Model, varCount())
		copy(n, w.model)
		n[vi] = MVal{u: val}
		return Sat, n
	}
	res, vars, vals := w.S.Check(cons)
	if res != Sat {
		return res, nil
	}
	n := make(Model, varCount())
	copy(n, w.model)
	for i, v := range vars {
		n[v.vi] = vals[i]
	}
	return Sat, n
}

func (w *Worker) logDec(d dec) {
	w.log = append(w.log, d)
	w.iDecs = append(w.iDecs, d)
}

// takeForced returns a pending decision (from backtracking or prefix replay).
func (w *Worker) takeForced() (dec, bool, bool) {
	if w.fpos < len(w.forced) {
		d := w.forced[w.fpos]
		w.fpos++
		return d, true, true
	}
	if w.rpos < len(w.replay) {
		d := w.replay[w.rpos]
		w.rpos++
		if w.rpos == len(w.replay) {
			w.setModel(w.rmodel)
		}
		return d, true, false
	}
	return dec{}, false, false
}

// branch decides a boolean value, forking when both outcomes are possible.
func (w *Worker) branch(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.branchT(v)
	}
	panic(fmt.Sprintf("branch on %T", v))
}

func (w *Worker) branchT(cond *Term) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	if d, ok, fromCP := w.takeForced(); ok {
		if d.n != 0 {
			panic("re-execution diverged")
		}
		b := d.alt == 1
		if !d.implied && !fromCP {
			if b {
				w.addPC(cond)
			} else {
				w.addPC(w.C.Not(cond))
			}
		}
		if d.fast && !fromCP {
			if b {
				w.imply(cond)
			} else {
				w.imply(w.C.Not(cond))
			}
		}
		w.logDec(d)
		return b
	}
	b := w.C.Eval(cond, w.model).u == 1
	other := cond
	mine := w.C.Not(cond)
	if b {
		other, mine = mine, other
	}
	res, m := w.feasible(other)
	if res == Unknown {
		w.X.note("solver unknown on branch at " + w.pos())
		w.X.incomplete.Store(true)
	}
	if res != Sat {
		w.logDec(dec{alt: int32(b2u(b)), implied: true, fast: w.fast})
		if w.fast {
			w.imply(mine)
		}
		if res == Unknown {
			w.addPC(mine)
		}
		return b
	}
	cp := w.snapshot()
	cp.alts = []alternative{{alt: int32(1 - b2u(b)), con: other, mod: m, known: true}}
	w.pushCP(cp)
	w.addPC(mine)
	w.logDec(dec{alt: int32(b2u(b))})
	return b
}

func (w *Worker) pushCP(cp *choicePoint) {
	cp.inputs = len(w.inputs)
	cp.evs = len(w.events)
	w.cps = append(w.cps, cp)
	atomic.AddInt64(&w.X.choices, 1)
	if w.X.hungry.Load() > 0 {
		w.donate()
	}
}

// donate gives the oldest untried alternative away to idle workers.
func (w *Worker) donate() {
	for i, cp := range w.cps {
		if len(cp.alts) == 0 || i == len(w.cps)-1 && len(w.cps) > 1 && false {
			continue
		}
		a := cp.alts[0]
		if a.con != nil && !a.known {
			continue
		}
		cp.alts = cp.alts[1:]
		decs := append([]dec(nil), w.log[:cp.logLen]...)
		decs = append(decs, cp.instrDec...)
		decs = append(decs, dec{alt: a.alt, n: a.n})
		m := a.mod
		if m == nil {
			m = cp.model
		}
		w.X.push(&taskPrefix{decs: decs, model: m})
		return
	}
}

// choose makes an unconstrained n-way decision.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok, _ := w.takeForced(); ok {
		if d.n != int32(n) {
			panic("re-execution diverged")
		}
		w.logDec(d)
		return int(d.alt)
	}
	cp := w.snapshot()
	for i := 1; i < n; i++ {
		cp.alts = append(cp.alts, alternative{alt: int32(i), n: int32(n), known: true})
	}
	w.pushCP(cp)
	w.logDec(dec{alt: 0, n: int32(n)})
	return 0
}

// backtrack restores the most recent choice point with an untried
// alternative; it returns false when the tree is exhausted.
func (w *Worker) backtrack() bool {
	for i := w.X.hungry.Load(); i > 0; i-- {
		w.donate()
	}
	for len(w.cps) > 0 {
		cp := w.cps[len(w.cps)-1]
		if len(cp.alts) == 0 {
			w.cps = w.cps[:len(w.cps)-1]
			continue
		}
		a := cp.alts[0]
		cp.alts = cp.alts[1:]
		w.undoTo(cp.trail)
		w.restoreGs(cp.gs)
		w.cur = cp.cur
		w.pc = w.pc[:cp.pcAt]
		w.implied = w.implied[:cp.impAt]
		w.log = w.log[:cp.logLen]
		w.npreempt = cp.npreempt
		w.ndelay = cp.ndelay
		w.lastG = cp.lastG
		w.gone = cp.gone
		w.nsched = cp.nsched
		w.atomicDepth = cp.atomicD
		w.steps = cp.steps
		w.inputs = w.inputs[:cp.inputs]
		w.events = w.events[:cp.evs]
		w.forced = append(append(w.forced[:0], cp.instrDec...), dec{alt: a.alt, n: a.n})
		w.fpos = 0
		if a.con != nil {
			w.addPC(a.con)
		}
		if a.mod != nil {
			w.setModel(a.mod)
		} else {
			w.setModel(cp.model)
		}
		if len(cp.alts) == 0 {
			w.cps = w.cps[:len(w.cps)-1]
		}
		return true
	}
	return false
}

// assume adds a constraint, ending the path when it is infeasible.
func (w *Worker) assume(v Value) {
	switch v := v.(type) {
	case bool:
		if !v {
			panic(pathEnd{"assume"})
		}
	case *Term:
		if v.isConst() {
			if v.val == 0 {
				panic(pathEnd{"assume"})
			}
			return
		}
		if _, ok, fromCP := w.takeForcedAssume(); ok {
			if !fromCP {
				w.addPC(v)
			}
			return
		}
		if w.C.Eval(v, w.model).u == 1 {
			w.addPC(v)
			w.logDec(dec{alt: 1})
			return
		}
		res, m := w.feasible(v)
		if res != Sat {
			if res == Unknown {
				w.X.note("solver unknown on assume at " + w.pos())
				w.X.incomplete.Store(true)
			} else if w.fast {
				w.imply(w.C.Not(v))
			}
			panic(pathEnd{"assume"})
		}
		w.addPC(v)
		w.setModel(m)
		w.logDec(dec{alt: 1})
	}
}

func (w *Worker) takeForcedAssume() (dec, bool, bool) {
	d, ok, cp := w.takeForced()
	if ok {
		w.logDec(d)
	}
	return d, ok, cp
}

// concretize picks a concrete value for a symbolic integer, forking over all
// feasible values.
func (w *Worker) concretize(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		for i := 0; ; i++ {
			if v.isConst() {
				return sext(v.val, v.w)
			}
			if i > 4096 {
				w.unsupported("concretize: too many values")
			}
			var k *Term
			// The candidate must be the same on re-execution: record it as
			// a decision-independent function of the model by branching on
			// the model's value; the value is kept in the log.
			if d, ok := w.peekForced(); ok {
				k = w.C.BV(uint64(uint32(d.alt))|uint64(uint32(w.nextForcedHi()))<<32, v.w)
				w.skipForced2()
			} else {
				x := w.C.Eval(v, w.model).u
				w.logDec(dec{alt: int32(uint32(x)), implied: true})
				w.logDec(dec{alt: int32(uint32(x >> 32)), implied: true})
				k = w.C.BV(x, v.w)
			}
			if w.branchT(w.C.Eq(v, k)) {
				return sext(k.val, v.w)
			}
		}
	}
	panic(fmt.Sprintf("concretize %T", v))
}

func (w *Worker) concretizeT(v Value, wd uint8, signed bool) int64 {
	x := w.concretize(v)
	return norm(x, wd, signed)
}

func (w *Worker) peekForced() (dec, bool) {
	if w.fpos < len(w.forced) {
		return w.forced[w.fpos], true
	}
	if w.rpos < len(w.replay) {
		return w.replay[w.rpos], true
	}
	return dec{}, false
}

func (w *Worker) nextForcedHi() int32 {
	if w.fpos < len(w.forced) {
		return w.forced[w.fpos+1].alt
	}
	return w.replay[w.rpos+1].alt
}

func (w *Worker) skipForced2() {
	for i := 0; i < 2; i++ {
		d, _, _ := w.takeForced()
		w.logDec(d)
	}
}

func (w *Worker) unsupported(msg string) {
	w.X.unsupported(msg + " at " + w.pos() + w.stack())
	panic(pathEnd{"unsupported"})
}

func (w *Worker) pos() string {
	if w.cur == nil || w.cur.top == nil {
		return "?"
	}
	fr := w.cur.top
	s := fr.fn.name
	if p := w.instrPos(fr); p.IsValid() {
		ps := P.prog.Fset.Position(p)
		s += fmt.Sprintf(" (%s:%d)", ps.Filename, ps.Line)
	}
	return s
}

func (w *Worker) instrPos(fr *Frame) token.Pos {
	if fr.blk == nil || fr.pc >= len(fr.blk.instrs) {
		return token.NoPos
	}
	for i := fr.pc; i >= 0; i-- {
		if p := fr.blk.instrs[i].in; p != nil && p.Pos().IsValid() {
			return p.Pos()
		}
	}
	return fr.fn.ssa.Pos()
}

func (w *Worker) stack() string {
	s := ""
	if w.cur == nil {
		return s
	}
	n := 0
	for fr := w.cur.top; fr != nil; fr = fr.caller {
		n++
		if n > 12 {
			s += " < ..."
			break
		}
		s += " < " + fr.fn.name
		if p := w.instrPos(fr); p.IsValid() {
			s += fmt.Sprintf(":%d", P.prog.Fset.Position(p).Line)
		}
	}
	return s
}

var _ = time.Now
