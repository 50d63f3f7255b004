package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Engine side of the harness API (package sx).

type concreteVal struct {
	kind string
	val  string
}

func (w *Worker) fresh(name string) string {
	n := w.names[name]
	old := n
	w.names[name] = n + 1
	w.undoFn(func() { w.names[name] = old })
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func (w *Worker) newVar(name, kind string, s Sort, wd uint8) *Term {
	n := w.fresh(name)
	t := w.C.Var(n, s, wd)
	if len(w.model) < varCount() {
		m := make(Model, varCount())
		copy(m, w.model)
		w.model = m
	}
	w.inputs = append(w.inputs, inputRec{name: n, kind: kind, t: t})
	return t
}

func addSX(m map[string]intrinsic) {
	p := sxPath + "."
	m[p+"Byte"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.newVar(a[0].(string), "byte", SBV, 8), cNext
	}
	m[p+"Bool"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.newVar(a[0].(string), "bool", SBool, 0), cNext
	}
	m[p+"Int"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.newVar(a[0].(string), "int", SBV, 64), cNext
	}
	m[p+"Int32"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.newVar(a[0].(string), "int32", SBV, 32), cNext
	}
	m[p+"Choice"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		k := w.choose(int(w.concretize(a[1])))
		n := w.fresh(a[0].(string))
		w.inputs = append(w.inputs, inputRec{name: n, kind: "choice", n: int64(k)})
		return int64(k), cNext
	}
	m[p+"Str"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		n := int(w.concretize(a[1]))
		name := w.fresh(a[0].(string))
		b := make([]Value, n)
		for i := range b {
			b[i] = w.C.Var(fmt.Sprintf("%s[%d]", name, i), SBV, 8)
		}
		if len(w.model) < varCount() {
			m := make(Model, varCount())
			copy(m, w.model)
			w.model = m
		}
		w.inputs = append(w.inputs, inputRec{name: name, kind: "string", ts: b})
		return normStr(b), cNext
	}
	m[p+"ratVar"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		t := w.newVar(a[0].(string), "rat", SReal, 0)
		q := new(Value)
		*q = Struct{Struct{BigRat{t}, Slice{}}, Struct{false, Slice{}}}
		return q, cNext
	}
	m[p+"bigVar"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		t := w.newVar(a[0].(string), "bigint", SInt, 0)
		q := new(Value)
		*q = Struct{BigInt{t}, Slice{}}
		return q, cNext
	}
	m[p+"Assume"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.assume(a[0])
		return nil, cNext
	}
	m[p+"In"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		// In(b, set): membership without forking.
		set := goStr(w, a[1])
		t, ok := a[0].(*Term)
		if !ok {
			return strings.IndexByte(set, byte(a[0].(int64))) >= 0, cNext
		}
		var alts []*Term
		for i := 0; i < len(set); i++ {
			alts = append(alts, w.C.Eq(t, w.C.BV(uint64(set[i]), 8)))
		}
		return w.lowerB(w.C.Or(alts...)), cNext
	}
	m[p+"ExpectExit"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return nil, cNext }
	m[p+"Table"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		// Table(b, vals): vals[b] without forking.
		t, ok := a[0].(*Term)
		sl := a[1].(Slice)
		at := func(i int) *Term { return w.C.BV(uint64(sl.s[i].(int64))&0xffffffff, 32) }
		if !ok {
			return sl.s[int(uint8(a[0].(int64)))], cNext
		}
		r := at(len(sl.s) - 1)
		for i := len(sl.s) - 2; i >= 0; i-- {
			r = w.C.Ite(w.C.Eq(t, w.C.BV(uint64(i), 8)), at(i), r)
		}
		return r, cNext
	}
	m[p+"And"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.lowerB(w.C.And(w.toBool(a[0]), w.toBool(a[1]))), cNext
	}
	m[p+"Or"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.lowerB(w.C.Or(w.toBool(a[0]), w.toBool(a[1]))), cNext
	}
	m[p+"Assert"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.assertV(a[0], a[1])
		return nil, cNext
	}
	m[p+"Fail"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.violation("assert", w.modelStr(a[0]))
		panic(pathEnd{"violation"})
	}
	m[p+"Reach"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.reached[w.modelStr(a[0])] = true
		return nil, cNext
	}
	m[p+"Param"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		if v, ok := w.X.params[a[0].(string)]; ok {
			return int64(v), cNext
		}
		return a[1], cNext
	}
	m[p+"Symbolic"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return true, cNext }
	m[p+"Concrete"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.concretize(a[0]), cNext
	}
	m[p+"ConcreteStr"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return goStr(w, a[0]), cNext
	}
	m[p+"Yield"] = m["runtime.Gosched"]
	m[p+"Log"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		s := w.modelStr(a[0])
		w.events = append(w.events, "log: "+s)
		return nil, cNext
	}
	m[p+"Quiesce"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		g := w.cur
		rdy := func() bool {
			for _, o := range w.gs {
				if o != g && !o.lazy && w.isReady(o) {
					return false
				}
			}
			return true
		}
		if g.phase == 6 || rdy() {
			g.phase = 0
			g.lazy = false
			for _, o := range w.gs {
				if o != g {
					w.race.handoff1(w, o, g)
				}
			}
			w.race.acquire(w, g, w.gone)
			return nil, cNext
		}
		g.phase = 6
		g.lazy = true
		return nil, w.block(g, "quiesce", rdy)
	}
	m[p+"Blocked"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		// Number of goroutines other than the caller that are blocked.
		n := 0
		for _, o := range w.gs {
			if o != w.cur && o.status != gDone && !w.isReady(o) {
				n++
			}
		}
		return int64(n), cNext
	}
	m[p+"Point"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return nil, cNext }
	m[p+"Await"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		q := ptr(w, a[0])
		old := w.concretize(a[1])
		if cur, ok := (*q).(int64); !ok || cur != old {
			w.cur.phase = 0
			return nil, cNext
		}
		return nil, w.block(w.cur, "system call", func() bool {
			cur, ok := (*q).(int64)
			return !ok || cur != old
		})
	}
	m[p+"Acquire"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		if w.race != nil {
			w.race.acquire(w, w.cur, w.syncOf(ptr(w, a[0])).vc)
		}
		return nil, cNext
	}
	m[p+"Release"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		if w.race != nil {
			o := w.syncOf(ptr(w, a[0]))
			w.modSync(o)
			o.vc = w.race.releaseInto(w, w.cur, o.vc)
		}
		return nil, cNext
	}
	m[p+"Enter"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.atomicDepth++
		return nil, cNext
	}
	m[p+"Leave"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.atomicDepth--
		return nil, cNext
	}
	m[p+"Size"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return int64(reachable(a[0])), cNext
	}
	m[p+"Depth"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return int64(fr.depth), cNext
	}
	m[p+"swapAny"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		s := a[0].(Iface).v.(Slice).s
		i, j := w.concretize(a[1]), w.concretize(a[2])
		x, y := copyVal(s[i]), copyVal(s[j])
		w.store(&s[i], y)
		w.store(&s[j], x)
		return nil, cNext
	}
	m[p+"lenAny"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return int64(len(a[0].(Iface).v.(Slice).s)), cNext
	}
	m[p+"typeName"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		i := a[0].(Iface)
		if i.t == nil {
			return "<nil>", cNext
		}
		return i.t.String(), cNext
	}
	m[p+"kindOf"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		// Underlying int or string of a named scalar, for formatting.
		i := a[0].(Iface)
		if i.t == nil {
			return Tuple{int64(0), int64(0), ""}, cNext
		}
		if _, _, ok := intInfo(i.t); ok {
			wd, sg, _ := intInfo(i.t)
			return Tuple{int64(1), w.lower(w.C.Resize(w.toBV(i.v, wd), 64, sg), true), ""}, cNext
		}
		switch v := i.v.(type) {
		case string, *SymStr:
			return Tuple{int64(2), int64(0), v}, cNext
		}
		return Tuple{int64(0), int64(0), ""}, cNext
	}
}

func (w *Worker) assertV(v Value, msg Value) {
	switch c := v.(type) {
	case bool:
		atomic.AddInt64(&w.X.assertConcrete, 1)
		if !c {
			w.violation("assert", w.modelStr(msg))
			panic(pathEnd{"violation"})
		}
	case *Term:
		if c.isConst() {
			w.assertV(c.val == 1, msg)
			return
		}
		if _, ok, fromCP := w.takeForcedAssume(); ok {
			if !fromCP {
				w.addPC(c)
			}
			return
		}
		atomic.AddInt64(&w.X.assertSMT, 1)
		neg := w.C.Not(c)
		if w.C.Eval(neg, w.model).u == 1 {
			w.violation("assert", w.modelStr(msg))
			panic(pathEnd{"violation"})
		}
		if neg == w.C.True || neg == w.C.False {
			panic("constant assertion")
		}
		res, m := w.decide(neg, false)
		switch res {
		case Sat:
			w.setModel(m)
			w.violation("assert", w.modelStr(msg))
			panic(pathEnd{"violation"})
		case Unknown:
			w.X.note("solver unknown on assertion at " + w.pos())
			w.X.incomplete.Store(true)
		}
		w.addPC(c)
		w.logDec(dec{alt: 1})
	}
}

// Violation is a counterexample.
type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"message"`
	Where   string            `json:"where"`
	Inputs  map[string]string `json:"inputs"`
	Params  map[string]int    `json:"params"`
	Events  []string          `json:"events,omitempty"`
	Blocked []string          `json:"blocked,omitempty"`
	Decs    []int32           `json:"decisions"`
	Implied []bool            `json:"-"`
	Widths  []int32           `json:"-"`
	Sched   int               `json:"schedule_choices"`
	Replay  string            `json:"replay,omitempty"`
	model   Model
}

func (w *Worker) inputVals() map[string]string {
	out := map[string]string{}
	for _, in := range w.inputs {
		switch in.kind {
		case "choice":
			out[in.name] = fmt.Sprint(in.n)
		case "string":
			b := make([]byte, len(in.ts))
			for i, t := range in.ts {
				b[i] = byte(w.C.Eval(t.(*Term), w.model).u)
			}
			out[in.name] = fmt.Sprintf("%x", b)
		case "rat", "bigint":
			r := w.C.Eval(in.t, w.model).r
			out[in.name] = r.RatString()
		case "int":
			out[in.name] = fmt.Sprint(int64(w.C.Eval(in.t, w.model).u))
		case "int32":
			out[in.name] = fmt.Sprint(int32(w.C.Eval(in.t, w.model).u))
		default:
			out[in.name] = fmt.Sprint(w.C.Eval(in.t, w.model).u)
		}
	}
	return out
}

func (w *Worker) violation(kind, msg string) {
	v := &Violation{Harness: w.X.name, Kind: kind, Msg: msg, Where: w.pos() + w.stack(), Inputs: w.inputVals(), Params: w.X.params}
	v.Events = append([]string(nil), w.events...)
	v.Sched = w.nsched
	for _, d := range w.log {
		v.Decs = append(v.Decs, d.alt)
		v.Implied = append(v.Implied, d.implied)
		v.Widths = append(v.Widths, d.n)
	}
	v.model = append(Model(nil), w.model...)
	if kind == "deadlock" || kind == "hang" {
		for _, g := range w.gs {
			if g.status == gBlocked {
				v.Blocked = append(v.Blocked, fmt.Sprintf("g%d (%s) %s at %s", g.id, g.name, g.why, g.blockAt))
			}
		}
		sort.Strings(v.Blocked)
	}
	w.X.addViolation(v)
}

var _ = big.NewInt
var _ ssa.Value

// reachable counts the cells that can be reached from v.
func reachable(v Value) int {
	cells := map[*Value]bool{}
	maps := map[*Map]bool{}
	chans := map[*Chan]bool{}
	clos := map[*Closure]bool{}
	todo := []Value{v}
	cell := func(p *Value) {
		if p != nil && !cells[p] {
			cells[p] = true
			todo = append(todo, *p)
		}
	}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		switch x := x.(type) {
		case *Value:
			cell(x)
		case Struct:
			for i := range x {
				cell(&x[i])
			}
		case Array:
			for i := range x {
				cell(&x[i])
			}
		case Tuple:
			todo = append(todo, x...)
		case Slice:
			for i := range x.s {
				cell(&x.s[i])
			}
		case Iface:
			todo = append(todo, x.v)
		case UnsafePtr:
			todo = append(todo, x.v)
		case *Closure:
			if x != nil && !clos[x] {
				clos[x] = true
				todo = append(todo, x.env...)
			}
		case *Map:
			if x != nil && !maps[x] {
				maps[x] = true
				for _, e := range x.entries {
					if !e.dead {
						todo = append(todo, e.key, e.val)
					}
				}
			}
		case *Chan:
			if x != nil && !chans[x] {
				chans[x] = true
				todo = append(todo, x.buf...)
			}
		}
	}
	return len(cells) + len(maps) + len(chans) + len(clos)
}
