package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	cNext   ctl = iota // result set, advance
	cJumped            // control already transferred
	cBlock             // goroutine blocked; re-execute later
	cYield             // switch goroutine
)

type intrinsic func(w *Worker, fr *Frame, ni *Instr, args []Value) (Value, ctl)

func (w *Worker) rtError(msg string) Value {
	return Iface{t: P.rtErr, v: msg}
}

type goPanic struct{ val Value }

// throwRT raises a Go run-time error in the interpreted program.
func (w *Worker) throwRT(msg string) {
	panic(goPanic{w.rtError("runtime error: " + msg)})
}

func (w *Worker) newFrame(fn *Fn, env []Value, args []Value, caller *Frame, ret int32) *Frame {
	if fn.model != nil {
		w.stubUse[fn.name]++
		fn = fn.model
	}
	fn.compile()
	if fn.nores {
		w.unsupported("call to function without body: " + fn.name)
	}
	fr := &Frame{fn: fn, caller: caller, ret: ret}
	fr.env = make([]Value, fn.nregs)
	if len(args) != len(fn.params) {
		panic(fmt.Sprintf("arity: %s %d %d", fn.name, len(args), len(fn.params)))
	}
	for i, p := range fn.params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.free {
		fr.env[p] = env[i]
	}
	fr.blk = fn.blocks[0]
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > w.X.opt.maxDepth {
			w.X.depthHit.Store(true)
			panic(pathEnd{"depth"})
		}
	}
	w.covered[fn] = true
	return fr
}

// runGoroutine executes w.cur until it blocks, ends or is preempted.
func (w *Worker) runGoroutine() {
	g := w.cur
	fr := g.unfreeze()
	for {
		ni := fr.blk.instrs[fr.pc]
		w.iTrail = len(w.trail)
		w.iLog = len(w.log)
		w.iDecs = w.iDecs[:0]
		w.steps++
		if w.steps > w.X.opt.maxSteps {
			w.stepLimit()
		}
		if ni.visib && w.X.opt.explore && !w.initPhase {
			if w.schedPoint() {
				return
			}
		}
		c := w.exec(g, fr, ni)
		switch c {
		case cNext:
			fr.pc++
		case cJumped:
			if g.status == gDone {
				return
			}
			fr = g.unfreeze()
		case cBlock, cYield:
			return
		}
	}
}

// exec executes one instruction, converting Go-level panics raised by the
// interpreted program into unwinding.
func (w *Worker) exec(g *G, fr *Frame, ni *Instr) (c ctl) {
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			w.startPanic(g, gp.val, true)
			c = cJumped
		}
	}()
	return w.exec1(g, fr, ni)
}

func (w *Worker) startPanic(g *G, val Value, rt bool) {
	fr := g.unfreeze()
	fr.mode = fmPanicking
	fr.pan = &panicRec{val: val, where: w.pos() + w.stack(), rt: rt}
	w.unwind(g)
}

// unwind continues running deferred calls of the top frame, or pops it.
func (w *Worker) unwind(g *G) {
	for {
		fr := g.unfreeze()
		if fr.defers != nil {
			d := fr.defers
			fr.defers = d.next
			if d.bi != nil {
				w.deferredBuiltin(g, d)
				continue
			}
			nf := w.callFrame(d.fn, d.env, d.args, fr, -1)
			nf.isDefer = true
			g.top = nf
			return
		}
		switch fr.mode {
		case fmRunDefers:
			fr.mode = fmNormal
			fr.pc++
			return
		case fmRecovered:
			fr.mode = fmNormal
			fr.pan = nil
			if fr.fn.recov == nil {
				// No named results: return zero values.
				w.doReturn(g, fr, zeroResults(fr.fn))
				return
			}
			fr.prev = fr.blk.idx
			fr.blk = fr.fn.recov
			fr.pc = 0
			return
		case fmPanicking:
			p := fr.pan
			caller := fr.caller
			if caller == nil {
				g.status = gDone
				g.top = nil
				w.uncaught(g, p)
				return
			}
			g.top = caller
			cf := g.unfreeze()
			// A panic in a deferred call replaces an earlier one.
			cf.mode = fmPanicking
			cf.pan = p
		default:
			panic("unwind mode")
		}
	}
}

func zeroResults(fn *Fn) Value {
	res := fn.ssa.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (w *Worker) doReturn(g *G, fr *Frame, v Value) {
	caller := fr.caller
	if caller == nil {
		g.status = gDone
		g.top = nil
		if w.race != nil {
			w.race.exit(w, g)
		}
		return
	}
	g.top = caller
	cf := g.unfreeze()
	if fr.isDefer {
		w.unwind(g)
		return
	}
	if fr.ret >= 0 {
		cf.env[fr.ret] = v
	}
}

// callFrame builds the frame for a call of fn, wrapping intrinsics in a
// trampoline.
func (w *Worker) callFrame(fn *Fn, env, args []Value, caller *Frame, ret int32) *Frame {
	if fn.intr != nil {
		fn = trampoline(fn, len(args))
		env = nil
	}
	return w.newFrame(fn, env, args, caller, ret)
}

var (
	trampMu sync.Mutex
	trampT  = map[*Fn]*Fn{}
)

func trampoline(fn *Fn, n int) *Fn {
	trampMu.Lock()
	defer trampMu.Unlock()
	if t, ok := trampT[fn]; ok {
		return t
	}
	t := &Fn{name: fn.name + "$tramp", ssa: fn.ssa}
	call := &Instr{in: &ssa.Call{}, dst: int32(n), fn: fn, visib: visibleIntr[fn.name]}
	ret := &Instr{in: &ssa.Return{}, dst: -1}
	for i := 0; i < n; i++ {
		t.params = append(t.params, int32(i))
		call.args = append(call.args, opnd{k: int32(i)})
	}
	t.nregs = n + 1
	if r := fn.ssa.Signature.Results(); r.Len() > 0 {
		ret.args = []opnd{{k: int32(n)}}
		ret.n = -1 // already a tuple if more than one
	}
	t.blocks = []*Block{{instrs: []*Instr{call, ret}}}
	t.once.Do(func() {})
	t.ready.Store(true)
	trampT[fn] = t
	return t
}

func (w *Worker) exec1(g *G, fr *Frame, ni *Instr) ctl {
	switch in := ni.in.(type) {
	case *ssa.FieldAddr:
		p, ok := w.get(fr, &ni.a).(*Value)
		if !ok || p == nil {
			w.nilDeref(w.get(fr, &ni.a))
		}
		fr.env[ni.dst] = &(*p).(Struct)[ni.n]
		return cNext

	case *ssa.UnOp:
		return w.unop(g, fr, ni, in)

	case *ssa.Store:
		p, ok := w.get(fr, &ni.a).(*Value)
		if !ok || p == nil {
			w.nilDeref(w.get(fr, &ni.a))
		}
		if w.race != nil {
			w.race.write(w, g, p)
		}
		w.store(p, w.get(fr, &ni.b))
		return cNext

	case *ssa.Call:
		return w.call(g, fr, ni)

	case *ssa.BinOp:
		fr.env[ni.dst] = w.binop(in.Op, ni.t2, ni.w, ni.signed, w.get(fr, &ni.a), w.get(fr, &ni.b), in.Y.Type())
		return cNext

	case *ssa.If:
		return w.doIf(fr, w.get(fr, &ni.a))

	case *ssa.Jump:
		w.jump(fr, fr.blk.succs[0], nil)
		return cJumped

	case *ssa.Return:
		var v Value
		switch len(ni.args) {
		case 0:
		case 1:
			v = w.get(fr, &ni.args[0])
		default:
			t := make(Tuple, len(ni.args))
			for i := range ni.args {
				t[i] = w.get(fr, &ni.args[i])
			}
			v = t
		}
		w.doReturn(g, fr, v)
		return cJumped

	case *ssa.Alloc:
		p := new(Value)
		*p = zero(ni.t2)
		fr.env[ni.dst] = p
		return cNext

	case *ssa.Extract:
		fr.env[ni.dst] = w.get(fr, &ni.a).(Tuple)[ni.n]
		return cNext

	case *ssa.ChangeInterface:
		fr.env[ni.dst] = w.get(fr, &ni.a)
		return cNext

	case *ssa.ChangeType:
		fr.env[ni.dst] = w.get(fr, &ni.a)
		return cNext

	case *ssa.MakeInterface:
		v := w.get(fr, &ni.a)
		fr.env[ni.dst] = Iface{t: ni.t2, v: copyVal(v)}
		return cNext

	case *ssa.Convert:
		return w.convert(g, fr, ni)

	case *ssa.MultiConvert:
		return w.convert(g, fr, ni)

	case *ssa.Field:
		fr.env[ni.dst] = copyVal(w.get(fr, &ni.a).(Struct)[ni.n])
		return cNext

	case *ssa.IndexAddr:
		w.indexAddr(fr, ni, in)
		return cNext

	case *ssa.Index:
		x := w.get(fr, &ni.a)
		idx := w.get(fr, &ni.b)
		if a, ok := x.(Array); ok {
			fr.env[ni.dst] = w.readAt([]Value(a), idx, ni.w, ni.signed, ni.t)
			return cNext
		}
		fr.env[ni.dst] = w.strIndex(x, idx, ni.w, ni.signed)
		return cNext

	case *ssa.Lookup:
		x := w.get(fr, &ni.a)
		if m, ok := x.(*Map); ok {
			if w.race != nil && m != nil {
				w.race.read(w, g, &m.race)
			}
			v, found := w.mapGet(m, w.get(fr, &ni.b))
			if v == nil {
				v = zero(ni.t2.Underlying().(*types.Map).Elem())
			}
			v = copyVal(v)
			if in.CommaOk {
				fr.env[ni.dst] = Tuple{v, found}
			} else {
				fr.env[ni.dst] = v
			}
			return cNext
		}
		fr.env[ni.dst] = w.strIndex(x, w.get(fr, &ni.b), ni.w, ni.signed)
		return cNext

	case *ssa.Phi:
		panic("phi")

	case *ssa.Slice:
		w.doSlice(fr, ni, in)
		return cNext

	case *ssa.MakeSlice:
		n := w.concretize(w.get(fr, &ni.a))
		c := w.concretize(w.get(fr, &ni.b))
		if n < 0 || n > 1<<26 {
			w.throwRT("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			w.throwRT("makeslice: cap out of range")
		}
		s := make([]Value, c)
		z := zero(ni.t2)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = zero(ni.t2)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
		fr.env[ni.dst] = Slice{s[:n]}
		return cNext

	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.env[ni.dst] = &Map{idx: map[any]int{}, kt: mt.Key(), et: mt.Elem()}
		return cNext

	case *ssa.MapUpdate:
		m := w.get(fr, &ni.a).(*Map)
		if m == nil {
			panic(goPanic{w.rtError("assignment to entry in nil map")})
		}
		if w.race != nil {
			w.race.write(w, g, &m.race)
		}
		w.mapSet(m, w.get(fr, &ni.b), copyVal(w.get(fr, &ni.c)))
		return cNext

	case *ssa.MakeChan:
		w.chanN++
		fr.env[ni.dst] = &Chan{id: w.chanN, cap: int(w.concretize(w.get(fr, &ni.a)))}
		return cNext

	case *ssa.MakeClosure:
		env := make([]Value, len(ni.args))
		for i := range ni.args {
			env[i] = w.get(fr, &ni.args[i])
		}
		fr.env[ni.dst] = &Closure{fn: ni.fn, env: env}
		return cNext

	case *ssa.TypeAssert:
		w.typeAssert(fr, ni, in)
		return cNext

	case *ssa.Range:
		x := w.get(fr, &ni.a)
		switch x := x.(type) {
		case *Map:
			it := &mapIter{m: x}
			if x != nil {
				if w.race != nil {
					w.race.read(w, g, &x.race)
				}
				for i := range x.entries {
					if !x.entries[i].dead {
						it.order = append(it.order, i)
					}
				}
				if w.X.opt.mapOrder && !w.initPhase && len(it.order) > 1 {
					it.order = w.permute(it.order)
				}
			}
			fr.env[ni.dst] = it
		case string, *SymStr:
			fr.env[ni.dst] = &strIter{s: x}
		default:
			panic("range")
		}
		return cNext

	case *ssa.Next:
		switch it := w.get(fr, &ni.a).(type) {
		case *mapIter:
			pos := it.pos
			for pos < len(it.order) && it.m.entries[it.order[pos]].dead {
				pos++
			}
			old := it.pos
			w.undoFn(func() { it.pos = old })
			if pos >= len(it.order) {
				// Entries added during iteration may be skipped.
				it.pos = pos
				fr.env[ni.dst] = Tuple{false, nil, nil}
			} else {
				e := &it.m.entries[it.order[pos]]
				it.pos = pos + 1
				fr.env[ni.dst] = Tuple{true, e.key, copyVal(e.val)}
			}
		case *strIter:
			if it.pos >= strLen(it.s) {
				fr.env[ni.dst] = Tuple{false, int64(0), int64(0)}
				return cNext
			}
			r, n := w.decodeRune(it.s, it.pos)
			old := it.pos
			w.undoFn(func() { it.pos = old })
			fr.env[ni.dst] = Tuple{true, int64(it.pos), r}
			it.pos += n
		}
		return cNext

	case *ssa.Panic:
		w.startPanic(g, w.get(fr, &ni.a), false)
		return cJumped

	case *ssa.Defer:
		d := &deferRec{}
		if ni.kind == 2 {
			d.bi = ni
			for i := range ni.args {
				d.args = append(d.args, w.get(fr, &ni.args[i]))
			}
		} else {
			d.fn, d.env, d.args = w.callee(fr, ni)
		}
		d.next = fr.defers
		fr.defers = d
		return cNext

	case *ssa.RunDefers:
		fr.mode = fmRunDefers
		w.unwind(g)
		return cJumped

	case *ssa.Go:
		if ni.kind == 2 {
			w.unsupported("go builtin")
		}
		fn, env, args := w.callee(fr, ni)
		w.spawn(g, fn, env, args)
		return cNext

	case *ssa.Send:
		return w.chanSend(g, fr, ni)

	case *ssa.Select:
		return w.doSelect(g, fr, ni, in)

	case *ssa.SliceToArrayPointer:
		s := w.get(fr, &ni.a).(Slice).s
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			w.throwRT("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.env[ni.dst] = p
		return cNext
	}
	panic(fmt.Sprintf("exec %T", ni.in))
}

func (w *Worker) nilDeref(v Value) {
	if p, ok := v.(*Value); ok && p == nil {
		w.throwRT("invalid memory address or nil pointer dereference")
	}
	w.unsupported(fmt.Sprintf("dereference of %T", v))
}

// jump transfers control within a frame. phiVals, if not nil, are the
// precomputed values of the target's phis.
func (w *Worker) jump(fr *Frame, to *Block, phiVals []Value) {
	from := fr.blk.idx
	if len(to.phis) > 0 {
		if phiVals == nil {
			e := -1
			for i, p := range to.preds {
				if p == from {
					e = i
					break
				}
			}
			w.evalPhis(fr, to, e)
		} else {
			for i, p := range to.phis {
				fr.env[p.dst] = phiVals[i]
			}
		}
	}
	fr.prev = from
	fr.blk = to
	fr.pc = 0
}

func (w *Worker) evalPhis(fr *Frame, to *Block, e int) {
	if len(to.phis) == 1 {
		p := to.phis[0]
		fr.env[p.dst] = w.get(fr, &p.args[e])
		return
	}
	tmp := make([]Value, len(to.phis))
	for i, p := range to.phis {
		tmp[i] = w.get(fr, &p.args[e])
	}
	for i, p := range to.phis {
		fr.env[p.dst] = tmp[i]
	}
}

func (w *Worker) doIf(fr *Frame, cond Value) ctl {
	if c, ok := cond.(*Term); ok && !c.isConst() {
		return w.symIf(fr, c)
	}
	b := w.branch(cond)
	if b {
		w.jump(fr, fr.blk.succs[0], nil)
	} else {
		w.jump(fr, fr.blk.succs[1], nil)
	}
	return cJumped
}

// symIf handles a symbolic condition, merging short-circuit chains and
// value diamonds of pure blocks so that they do not fork.
func (w *Worker) symIf(fr *Frame, c *Term) ctl {
	blk := fr.blk
	from := blk
	if w.race != nil {
		return w.plainIf(fr, blk, c)
	}
	// State: control is at the end of `from` with two successors taken under
	// c and !c. Fold pure successor blocks.
	t, f := blk.succs[0], blk.succs[1]
	tFrom, fFrom := from, from
	type edge struct {
		from *Block
		cond *Term
	}
	tIn := []edge{{tFrom, c}}
	fIn := []edge{{fFrom, w.C.Not(c)}}
	for n := 0; n < 64; n++ {
		folded := false
		// Fold f when it is a pure conditional block sharing target t.
		for side := 0; side < 2; side++ {
			x, xin, y := f, fIn, t
			if side == 1 {
				x, xin, y = t, tIn, f
			}
			if !x.pure || len(x.preds) != 1 || len(xin) != 1 || len(x.phis) > 0 || x == y {
				continue
			}
			last := x.instrs[len(x.instrs)-1]
			switch last.in.(type) {
			case *ssa.If:
				if x.succs[0] != y && x.succs[1] != y || x.succs[0] == x.succs[1] {
					continue
				}
				if x.succs[0] == blk || x.succs[1] == blk {
					continue
				}
				if !w.speculate(fr, x) {
					continue
				}
				c2v := w.get(fr, &last.a)
				var c2 *Term
				switch v := c2v.(type) {
				case bool:
					c2 = w.C.Bool(v)
				case *Term:
					c2 = v
				default:
					continue
				}
				pc := xin[0].cond
				toY, other := c2, x.succs[1]
				if x.succs[1] == y {
					toY, other = w.C.Not(c2), x.succs[0]
				}
				ye := edge{x, w.C.And(pc, toY)}
				oe := edge{x, w.C.And(pc, w.C.Not(toY))}
				if side == 0 {
					tIn = append(tIn, ye)
					f, fIn = other, []edge{oe}
				} else {
					fIn = append(fIn, ye)
					t, tIn = other, []edge{oe}
				}
				folded = true
			case *ssa.Jump:
				if x.succs[0] != y {
					// full diamond: x -> j and y -> j
					if y.pure && len(y.preds) == 1 && len(y.phis) == 0 && len(y.succs) == 1 && y.succs[0] == x.succs[0] {
						if !w.speculate(fr, x) || !w.speculate(fr, y) {
							continue
						}
						yin := tIn
						if side == 1 {
							yin = fIn
						}
						if len(yin) != 1 {
							continue
						}
						j := x.succs[0]
						vals, ok := w.mergePhis(fr, j, []int{x.idx, y.idx}, []*Term{xin[0].cond, yin[0].cond})
						if !ok {
							continue
						}
						w.jump(fr, j, vals)
						return cJumped
					}
					continue
				}
				if !w.speculate(fr, x) {
					continue
				}
				// x -> y: everything reaches y.
				yin := tIn
				if side == 1 {
					yin = fIn
				}
				preds := []int{x.idx}
				conds := []*Term{xin[0].cond}
				for _, e := range yin {
					preds = append(preds, e.from.idx)
					conds = append(conds, e.cond)
				}
				vals, ok := w.mergePhis(fr, y, preds, conds)
				if !ok {
					continue
				}
				w.jump(fr, y, vals)
				return cJumped
			default:
				continue
			}
			if folded {
				break
			}
		}
		if !folded {
			break
		}
	}
	// Phis of the targets must be mergeable over their in-edges, else fall
	// back to the plain branch.
	tp, ok1 := w.mergeEdges(fr, t, tIn2(tIn, func(e edge) (int, *Term) { return e.from.idx, e.cond }))
	fp, ok2 := w.mergeEdges(fr, f, tIn2(fIn, func(e edge) (int, *Term) { return e.from.idx, e.cond }))
	if !ok1 || !ok2 {
		return w.plainIf(fr, blk, c)
	}
	var conds []*Term
	for _, e := range tIn {
		conds = append(conds, e.cond)
	}
	all := w.C.Or(conds...)
	if w.branchT(all) {
		w.jump(fr, t, nonNil(tp))
	} else {
		w.jump(fr, f, nonNil(fp))
	}
	return cJumped
}

func nonNil(v []Value) []Value {
	if v == nil {
		return []Value{}
	}
	return v
}

type inEdge struct {
	pred int
	cond *Term
}

func tIn2[E any](es []E, f func(E) (int, *Term)) []inEdge {
	out := make([]inEdge, len(es))
	for i, e := range es {
		out[i].pred, out[i].cond = f(e)
	}
	return out
}

func (w *Worker) mergeEdges(fr *Frame, to *Block, es []inEdge) ([]Value, bool) {
	var preds []int
	var conds []*Term
	for _, e := range es {
		preds = append(preds, e.pred)
		conds = append(conds, e.cond)
	}
	return w.mergePhis(fr, to, preds, conds)
}

// mergePhis computes the phi values of block `to` entered from one of preds
// under the given (mutually exclusive) conditions.
func (w *Worker) mergePhis(fr *Frame, to *Block, preds []int, conds []*Term) ([]Value, bool) {
	vals := make([]Value, len(to.phis))
	for i, p := range to.phis {
		var acc Value
		for k := len(preds) - 1; k >= 0; k-- {
			e := -1
			for j, q := range to.preds {
				if q == preds[k] {
					e = j
					break
				}
			}
			v := w.get(fr, &p.args[e])
			if k == len(preds)-1 {
				acc = v
				continue
			}
			if sameVal(v, acc) {
				continue
			}
			m, ok := w.mergeVal(conds[k], v, acc, p.t)
			if !ok {
				return nil, false
			}
			acc = m
		}
		vals[i] = acc
	}
	return vals, true
}

func sameVal(a, b Value) bool {
	switch a := a.(type) {
	case int64:
		b, ok := b.(int64)
		return ok && a == b
	case bool:
		b, ok := b.(bool)
		return ok && a == b
	case string:
		b, ok := b.(string)
		return ok && a == b
	case *Term:
		b, ok := b.(*Term)
		return ok && a == b
	case *Value:
		b, ok := b.(*Value)
		return ok && a == b
	case *SymStr:
		b, ok := b.(*SymStr)
		return ok && a == b
	}
	return false
}

func (w *Worker) mergeVal(c *Term, a, b Value, t types.Type) (Value, bool) {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsBoolean == 0 {
		if ok && w.X.opt.mergeInts && bt.Info()&types.IsInteger != 0 {
			wd, _, _ := intInfo(t)
			return w.lower(w.C.Ite(c, w.toBV(a, wd), w.toBV(b, wd)), true), true
		}
		return nil, false
	}
	return w.lowerB(w.C.Ite(c, w.toBool(a), w.toBool(b))), true
}

func (w *Worker) plainIf(fr *Frame, blk *Block, c *Term) ctl {
	if w.branchT(c) {
		w.jump(fr, blk.succs[0], nil)
	} else {
		w.jump(fr, blk.succs[1], nil)
	}
	return cJumped
}

// speculate evaluates the pure instructions of a block in the frame's
// registers; it reports false when any could fault.
func (w *Worker) speculate(fr *Frame, b *Block) (ok bool) {
	if w.noSpec {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, isP := r.(goPanic); isP {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, ni := range b.instrs[:len(b.instrs)-1] {
		switch in := ni.in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL {
				p, ok := w.get(fr, &ni.a).(*Value)
				if !ok || p == nil {
					return false
				}
				fr.env[ni.dst] = copyVal(*p)
				continue
			}
			if w.unop(w.cur, fr, ni, in) != cNext {
				return false
			}
		case *ssa.BinOp:
			x, y := w.get(fr, &ni.a), w.get(fr, &ni.b)
			switch in.Op {
			case token.EQL, token.NEQ:
			default:
				if _, ok := x.(*SymStr); ok {
					return false
				}
			}
			fr.env[ni.dst] = w.binop(in.Op, ni.t2, ni.w, ni.signed, x, y, in.Y.Type())
		case *ssa.FieldAddr:
			p, ok := w.get(fr, &ni.a).(*Value)
			if !ok || p == nil {
				return false
			}
			fr.env[ni.dst] = &(*p).(Struct)[ni.n]
		case *ssa.Convert:
			if w.convert(w.cur, fr, ni) != cNext {
				return false
			}
		case *ssa.ChangeInterface, *ssa.ChangeType:
			fr.env[ni.dst] = w.get(fr, &ni.a)
		case *ssa.Extract:
			fr.env[ni.dst] = w.get(fr, &ni.a).(Tuple)[ni.n]
		case *ssa.Field:
			fr.env[ni.dst] = copyVal(w.get(fr, &ni.a).(Struct)[ni.n])
		case *ssa.Call:
			v, ok := w.pureBuiltin(fr, ni)
			if !ok {
				return false
			}
			fr.env[ni.dst] = v
		default:
			return false
		}
	}
	return true
}

func (w *Worker) pureBuiltin(fr *Frame, ni *Instr) (Value, bool) {
	if ni.kind != 2 {
		return nil, false
	}
	switch ni.aux.(*ssa.Builtin).Name() {
	case "len":
		switch x := w.get(fr, &ni.args[0]).(type) {
		case string, *SymStr:
			return int64(strLen(x)), true
		case Slice:
			return int64(len(x.s)), true
		}
	}
	return nil, false
}

func (w *Worker) toBV(v Value, wd uint8) *Term {
	switch v := v.(type) {
	case int64:
		return w.C.BV(uint64(v), wd)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("toBV %T", v))
}

func (w *Worker) toBool(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return w.C.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("toBool %T", v))
}

// lower turns constant terms back into concrete values.
func (w *Worker) lower(t *Term, signed bool) Value {
	if t.isConst() {
		if signed {
			return sext(t.val, t.w)
		}
		return int64(t.val)
	}
	return t
}

func (w *Worker) lowerB(t *Term) Value {
	if t.isConst() {
		return t.val == 1
	}
	return t
}

func (w *Worker) unop(g *G, fr *Frame, ni *Instr, in *ssa.UnOp) ctl {
	x := w.get(fr, &ni.a)
	switch in.Op {
	case token.MUL:
		switch p := x.(type) {
		case *Value:
			if p == nil {
				w.nilDeref(x)
			}
			if w.race != nil {
				w.race.read(w, g, p)
			}
			fr.env[ni.dst] = copyVal(*p)
			return cNext
		case *SymPtr:
			fr.env[ni.dst] = w.iteRead(p.s, p.idx, ni.signed)
			return cNext
		}
		w.nilDeref(x)
	case token.NOT:
		switch v := x.(type) {
		case bool:
			fr.env[ni.dst] = !v
		case *Term:
			fr.env[ni.dst] = w.lowerB(w.C.Not(v))
		}
		return cNext
	case token.SUB:
		switch v := x.(type) {
		case int64:
			fr.env[ni.dst] = norm(-v, ni.w, ni.signed)
		case float64:
			fr.env[ni.dst] = -v
		case *Term:
			fr.env[ni.dst] = w.lower(w.C.Neg(v), ni.signed)
		}
		return cNext
	case token.XOR:
		switch v := x.(type) {
		case int64:
			fr.env[ni.dst] = norm(^v, ni.w, ni.signed)
		case *Term:
			fr.env[ni.dst] = w.lower(w.C.BNot(v), ni.signed)
		}
		return cNext
	case token.ARROW:
		return w.chanRecv(g, fr, ni, in.CommaOk)
	}
	panic("unop " + in.Op.String())
}

// SymPtr is the address of a slice element selected by a symbolic index; it
// can only be loaded.
type SymPtr struct {
	s   []Value
	idx *Term
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
	}
	return true
}

func scalars(s []Value) bool {
	for _, v := range s {
		switch v.(type) {
		case int64, bool, *Term:
		default:
			return false
		}
	}
	return true
}

// checkIndex checks a symbolic index against a length, raising the Go error
// on the failing side.
func (w *Worker) checkIndex(idx *Term, n int, signed bool) {
	var in *Term
	nt := w.C.BV(uint64(n), idx.w)
	if idx.w < 63 && uint64(n) > mask(idx.w) {
		in = w.C.True
		if signed {
			in = w.C.Cmp(OSle, w.C.BV(0, idx.w), idx)
		}
	} else {
		in = w.C.Cmp(OUlt, idx, nt)
	}
	if !w.branchT(in) {
		w.throwRT(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (w *Worker) iteRead(s []Value, idx *Term, signed bool) Value {
	// group equal runs
	isBool := false
	var wd uint8 = 64
	for _, v := range s {
		switch v := v.(type) {
		case bool:
			isBool = true
		case *Term:
			if v.sort == SBool {
				isBool = true
			} else {
				wd = v.w
			}
		}
	}
	conv := func(v Value) *Term {
		if isBool {
			return w.toBool(v)
		}
		return w.toBV(v, wd)
	}
	acc := conv(s[len(s)-1])
	i := len(s) - 1
	for i >= 0 {
		j := i
		for j > 0 && sameVal(s[j-1], s[i]) {
			j--
		}
		v := conv(s[i])
		if i == j {
			acc = w.C.Ite(w.C.Eq(idx, w.C.BV(uint64(i), idx.w)), v, acc)
		} else {
			acc = w.C.Ite(w.C.And(w.C.Cmp(OUle, w.C.BV(uint64(j), idx.w), idx), w.C.Cmp(OUle, idx, w.C.BV(uint64(i), idx.w))), v, acc)
		}
		i = j - 1
	}
	if isBool {
		return w.lowerB(acc)
	}
	return w.lower(acc, signed)
}

func sgn(t types.Type) bool {
	_, s, _ := intInfo(t)
	return s
}

func (w *Worker) widen(s []Value, et types.Type) []Value {
	ewd, _, isInt := intInfo(et)
	cp := make([]Value, len(s))
	for k, v := range s {
		if iv, ok := v.(int64); ok && isInt {
			cp[k] = w.C.BV(uint64(iv), ewd)
		} else {
			cp[k] = v
		}
	}
	return cp
}

func (w *Worker) readAt(s []Value, idx Value, wd uint8, signed bool, et types.Type) Value {
	switch i := idx.(type) {
	case int64:
		if i < 0 || i >= int64(len(s)) {
			w.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
		}
		return copyVal(s[i])
	case *Term:
		w.checkIndex(i, len(s), signed)
		if scalars(s) && len(s) <= 1024 {
			return w.iteRead(w.widen(s, et), i, sgn(et))
		}
		k := w.concretizeT(i, wd, signed)
		return copyVal(s[k])
	}
	panic("readAt")
}

func (w *Worker) strIndex(x, idx Value, wd uint8, signed bool) Value {
	n := strLen(x)
	switch i := idx.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			w.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return strAt(x, int(i))
	case *Term:
		w.checkIndex(i, n, signed)
		return w.iteRead(w.widen(strBytes(x), types.Typ[types.Uint8]), i, false)
	}
	panic("strIndex")
}

func (w *Worker) indexAddr(fr *Frame, ni *Instr, in *ssa.IndexAddr) {
	x := w.get(fr, &ni.a)
	var s []Value
	switch x := x.(type) {
	case Slice:
		s = x.s
	case *Value:
		if x == nil {
			w.nilDeref(x)
		}
		s = []Value((*x).(Array))
	default:
		w.unsupported(fmt.Sprintf("indexaddr %T", x))
	}
	switch i := w.get(fr, &ni.b).(type) {
	case int64:
		if i < 0 || i >= int64(len(s)) {
			w.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
		}
		fr.env[ni.dst] = &s[i]
	case *Term:
		w.checkIndex(i, len(s), ni.signed)
		if len(s) <= 1024 && scalars(s) && onlyLoads(in) {
			et := in.Type().Underlying().(*types.Pointer).Elem()
			cp := w.widen(s, et)
			fr.env[ni.dst] = &SymPtr{s: cp, idx: i}
			return
		}
		k := w.concretizeT(i, ni.w, ni.signed)
		fr.env[ni.dst] = &s[k]
	}
}

func (w *Worker) doSlice(fr *Frame, ni *Instr, in *ssa.Slice) {
	x := w.get(fr, &ni.a)
	lo, hi, max := int64(0), int64(-1), int64(-1)
	var length, capacity int64
	var s []Value
	isStr := false
	switch v := x.(type) {
	case string, *SymStr:
		isStr = true
		length = int64(strLen(v))
		capacity = length
	case Slice:
		s = v.s
		length, capacity = int64(len(s)), int64(cap(s))
	case *Value:
		if v == nil {
			w.nilDeref(v)
		}
		s = []Value((*v).(Array))
		length, capacity = int64(len(s)), int64(len(s))
	default:
		w.unsupported(fmt.Sprintf("slice of %T", x))
	}
	limit := capacity
	if isStr {
		limit = length
	}
	bound := func(o *opnd, has bool, def int64, lim int64, what string) int64 {
		if !has {
			return def
		}
		switch v := w.get(fr, o).(type) {
		case int64:
			if v < 0 || v > lim {
				w.throwRT(fmt.Sprintf("slice bounds out of range [%s%d] with limit %d", what, v, lim))
			}
			return v
		case *Term:
			if !w.branchT(w.C.Cmp(OUle, v, w.C.BV(uint64(lim), v.w))) {
				w.throwRT(fmt.Sprintf("slice bounds out of range [%s] with limit %d", what, lim))
			}
			return w.concretize(v)
		}
		panic("bound")
	}
	max = bound(&ni.args[0], in.Max != nil, limit, limit, "::")
	hi = bound(&ni.c, in.High != nil, length, max, ":")
	lo = bound(&ni.b, in.Low != nil, 0, hi, "")
	if isStr {
		fr.env[ni.dst] = strSlice(x, int(lo), int(hi))
		return
	}
	if s == nil {
		fr.env[ni.dst] = Slice{}
		return
	}
	fr.env[ni.dst] = Slice{s[lo:hi:max]}
}

func (w *Worker) typeAssert(fr *Frame, ni *Instr, in *ssa.TypeAssert) {
	v := w.get(fr, &ni.a).(Iface)
	ok := false
	var res Value
	if v.t != nil {
		if it, isI := ni.t2.Underlying().(*types.Interface); isI {
			if w.implements(v.t, it) {
				ok = true
				res = v
			}
		} else if v.t == ni.t2 {
			ok = true
			res = copyVal(v.v)
		}
	}
	if in.CommaOk {
		if !ok {
			res = zero(in.AssertedType)
		}
		fr.env[ni.dst] = Tuple{res, ok}
		return
	}
	if !ok {
		tn := "nil"
		if v.t != nil {
			tn = types.TypeString(v.t, func(p *types.Package) string { return p.Name() })
		}
		an := types.TypeString(in.AssertedType, func(p *types.Package) string { return p.Name() })
		panic(goPanic{w.rtError(fmt.Sprintf("interface conversion: interface is %s, not %s", tn, an))})
	}
	fr.env[ni.dst] = res
}

type implKey struct {
	t types.Type
	i *types.Interface
}

var implC sync.Map

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := implC.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i)
	implC.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

var methC sync.Map

func (w *Worker) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t, m}
	if r, ok := methC.Load(k); ok {
		return r.(*Fn)
	}
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(fmt.Sprintf("no method %s on %v", m.Name(), t))
	}
	fn := fnOf(f)
	methC.Store(k, fn)
	return fn
}

// callee resolves the function, environment and arguments of a call.
func (w *Worker) callee(fr *Frame, ni *Instr) (*Fn, []Value, []Value) {
	if ni.kind == 1 {
		recv := w.get(fr, &ni.a).(Iface)
		if recv.t == nil {
			w.throwRT("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 1+len(ni.args))
		args[0] = copyVal(recv.v)
		for i := range ni.args {
			args[i+1] = w.get(fr, &ni.args[i])
		}
		return w.method(recv.t, ni.aux.(*types.Func)), nil, args
	}
	args := make([]Value, len(ni.args))
	for i := range ni.args {
		args[i] = w.get(fr, &ni.args[i])
	}
	if ni.fn != nil {
		// static callee; closures called directly carry their bindings
		if ni.a.k >= 0 {
			if c, ok := fr.env[ni.a.k].(*Closure); ok && c != nil {
				return c.fn, c.env, args
			}
		}
		return ni.fn, nil, args
	}
	c, ok := w.get(fr, &ni.a).(*Closure)
	if !ok {
		w.unsupported(fmt.Sprintf("call of %T", w.get(fr, &ni.a)))
	}
	if c == nil {
		w.throwRT("invalid memory address or nil pointer dereference")
	}
	return c.fn, c.env, args
}

func (w *Worker) call(g *G, fr *Frame, ni *Instr) ctl {
	if ni.kind == 2 {
		return w.builtin(g, fr, ni)
	}
	fn, env, args := w.callee(fr, ni)
	if fn.intr != nil {
		if !ni.visib && visibleIntr[fn.name] && w.X.opt.explore && !w.initPhase {
			// Called through a function value or interface.
			if w.schedPoint() {
				return cYield
			}
		}
		v, c := fn.intr(w, fr, ni, args)
		if c == cNext && ni.dst >= 0 {
			fr.env[ni.dst] = v
		}
		return c
	}
	if w.initPhase && fn.ssa.Synthetic == "package initializer" && !w.X.allowInit(fn.ssa.Pkg.Pkg.Path()) {
		return cNext
	}
	nf := w.newFrame(fn, env, args, fr, ni.dst)
	fr.pc++
	g.top = nf
	return cJumped
}

// pushCall calls fn as part of the current instruction (a model function);
// its result goes to ni.dst.
func (w *Worker) pushCall(g *G, fr *Frame, ni *Instr, fn *Fn, args []Value) ctl {
	nf := w.callFrame(fn, nil, args, fr, ni.dst)
	fr.pc++
	g.top = nf
	return cJumped
}

func (w *Worker) binop(op token.Token, t types.Type, wd uint8, signed bool, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return w.equal(x, y)
	case token.NEQ:
		switch r := w.equal(x, y).(type) {
		case bool:
			return !r
		case *Term:
			return w.lowerB(w.C.Not(r))
		}
	}
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return w.intOp(op, a, b, wd, signed, yt)
		}
		if _, ok := y.(*Term); ok {
			return w.symOp(op, x, y, wd, signed, yt)
		}
	case *Term:
		if a.sort == SBool {
			switch op {
			case token.AND, token.LAND:
				return w.lowerB(w.C.And(a, w.toBool(y)))
			case token.OR, token.LOR:
				return w.lowerB(w.C.Or(a, w.toBool(y)))
			}
		}
		return w.symOp(op, x, y, wd, signed, yt)
	case float64:
		b := y.(float64)
		f32 := false
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		if f32 {
			r = float64(float32(r))
		}
		return r
	case string:
		switch op {
		case token.ADD:
			return strCat(x, y)
		}
		if b, ok := y.(string); ok {
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		return w.strCmp(op, x, y)
	case *SymStr:
		if op == token.ADD {
			return strCat(x, y)
		}
		return w.strCmp(op, x, y)
	case bool:
		switch b := y.(type) {
		case bool:
			switch op {
			case token.AND, token.LAND:
				return a && b
			case token.OR, token.LOR:
				return a || b
			}
		case *Term:
			switch op {
			case token.AND, token.LAND:
				return w.lowerB(w.C.And(w.toBool(a), b))
			case token.OR, token.LOR:
				return w.lowerB(w.C.Or(w.toBool(a), b))
			}
		}
	}
	panic(fmt.Sprintf("binop %s %T %T at %s", op, x, y, w.pos()))
}

func (w *Worker) intOp(op token.Token, a, b int64, wd uint8, signed bool, yt types.Type) Value {
	switch op {
	case token.ADD:
		return norm(a+b, wd, signed)
	case token.SUB:
		return norm(a-b, wd, signed)
	case token.MUL:
		return norm(a*b, wd, signed)
	case token.QUO:
		if b == 0 {
			w.throwRT("integer divide by zero")
		}
		if signed {
			if b == -1 {
				return norm(-a, wd, signed)
			}
			return norm(a/b, wd, signed)
		}
		return norm(int64(uint64(a)/uint64(b)), wd, signed)
	case token.REM:
		if b == 0 {
			w.throwRT("integer divide by zero")
		}
		if signed {
			if b == -1 {
				return int64(0)
			}
			return norm(a%b, wd, signed)
		}
		return norm(int64(uint64(a)%uint64(b)), wd, signed)
	case token.AND:
		return norm(a&b, wd, signed)
	case token.OR:
		return norm(a|b, wd, signed)
	case token.XOR:
		return norm(a^b, wd, signed)
	case token.AND_NOT:
		return norm(a&^b, wd, signed)
	case token.SHL, token.SHR:
		if _, ysg, ok := intInfo(yt); ok && ysg && b < 0 {
			w.throwRT("negative shift amount")
		}
		n := uint64(b)
		if op == token.SHL {
			if n >= 64 {
				return int64(0)
			}
			return norm(a<<n, wd, signed)
		}
		if signed {
			if n >= 64 {
				n = 63
			}
			return norm(a>>n, wd, signed)
		}
		if n >= 64 {
			return int64(0)
		}
		return norm(int64(uint64(a)>>n), wd, signed)
	case token.LSS:
		if signed {
			return a < b
		}
		return uint64(a) < uint64(b)
	case token.LEQ:
		if signed {
			return a <= b
		}
		return uint64(a) <= uint64(b)
	case token.GTR:
		if signed {
			return a > b
		}
		return uint64(a) > uint64(b)
	case token.GEQ:
		if signed {
			return a >= b
		}
		return uint64(a) >= uint64(b)
	}
	panic("intOp " + op.String())
}

func (w *Worker) symOp(op token.Token, x, y Value, wd uint8, signed bool, yt types.Type) Value {
	C := w.C
	a := w.toBV(x, wd)
	if op == token.SHL || op == token.SHR {
		ywd, ysg, _ := intInfo(yt)
		b := w.toBV(y, ywd)
		if ysg && !b.isConst() {
			if w.branchT(C.Cmp(OSlt, b, C.BV(0, b.w))) {
				w.throwRT("negative shift amount")
			}
		}
		if b.w > wd {
			// saturate
			big := C.Cmp(OUle, C.BV(uint64(wd), b.w), b)
			b = C.Ite(big, C.BV(uint64(wd), wd), C.Resize(b, wd, false))
		} else {
			b = C.Resize(b, wd, false)
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if signed {
				o = OAShr
			}
		}
		return w.lower(C.Bin(o, a, b), signed)
	}
	b := w.toBV(y, wd)
	var o Op
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.QUO, token.REM:
		if w.branchT(C.Eq(b, C.BV(0, wd))) {
			w.throwRT("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case signed:
			o = OSRem
		default:
			o = OURem
		}
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		return w.lower(C.Bin(OBAnd, a, C.BNot(b)), signed)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.LSS:
			return w.lowerB(C.Cmp(lt, a, b))
		case token.LEQ:
			return w.lowerB(C.Cmp(le, a, b))
		case token.GTR:
			return w.lowerB(C.Cmp(lt, b, a))
		default:
			return w.lowerB(C.Cmp(le, b, a))
		}
	default:
		panic("symOp " + op.String())
	}
	return w.lower(C.Bin(o, a, b), signed)
}

func (w *Worker) strEq(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	if strLen(x) != strLen(y) {
		return false
	}
	a, b := strBytes(x), strBytes(y)
	conj := make([]*Term, 0, len(a))
	for i := range a {
		e := w.C.Eq(w.toBV(a[i], 8), w.toBV(b[i], 8))
		if e == w.C.False {
			return false
		}
		conj = append(conj, e)
	}
	return w.lowerB(w.C.And(conj...))
}

func (w *Worker) strCmp(op token.Token, x, y Value) Value {
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	C := w.C
	// lt, eq after the common prefix
	var lt *Term
	lt = C.Bool(len(a) < len(b))
	eq := C.Bool(len(a) == len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := w.toBV(a[i], 8), w.toBV(b[i], 8)
		e := C.Eq(p, q)
		lt = C.Or(C.Cmp(OUlt, p, q), C.And(e, lt))
		eq = C.And(e, eq)
	}
	switch op {
	case token.LSS:
		return w.lowerB(lt)
	case token.LEQ:
		return w.lowerB(C.Or(lt, eq))
	case token.GTR:
		return w.lowerB(C.Not(C.Or(lt, eq)))
	case token.GEQ:
		return w.lowerB(C.Not(lt))
	}
	panic("strCmp")
}

// equal compares two values of the same static type.
func (w *Worker) equal(x, y Value) Value {
	switch a := x.(type) {
	case int64:
		switch b := y.(type) {
		case int64:
			return a == b
		case *Term:
			return w.lowerB(w.C.Eq(b, w.C.BV(uint64(a), b.w)))
		}
	case *Term:
		if a.sort == SBool {
			return w.lowerB(w.C.Eq(a, w.toBool(y)))
		}
		return w.lowerB(w.C.Eq(a, w.toBV(y, a.w)))
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return w.lowerB(w.C.Eq(w.toBool(a), b))
		}
	case string, *SymStr:
		return w.strEq(x, y)
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case *Value:
		b, ok := y.(*Value)
		return ok && a == b
	case *Map:
		return a == y.(*Map)
	case *Chan:
		return a == y.(*Chan)
	case *Closure:
		b := y.(*Closure)
		if a == nil || b == nil {
			return a == b
		}
		w.throwRT("comparing uncomparable type func")
	case Slice:
		b := y.(Slice)
		return a.s == nil && b.s == nil
	case UnsafePtr:
		return a.v == y.(UnsafePtr).v
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		switch a.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			w.throwRT("comparing uncomparable type " + a.t.String())
		}
		return w.equal(a.v, b.v)
	case Struct:
		b := y.(Struct)
		acc := w.C.True
		for i := range a {
			e := w.toBool(w.equal(a[i], b[i]))
			acc = w.C.And(acc, e)
			if acc == w.C.False {
				return false
			}
		}
		return w.lowerB(acc)
	case Array:
		b := y.(Array)
		acc := w.C.True
		for i := range a {
			e := w.toBool(w.equal(a[i], b[i]))
			acc = w.C.And(acc, e)
		}
		return w.lowerB(acc)
	case *SymPtr:
		return false
	}
	panic(fmt.Sprintf("equal %T %T at %s", x, y, w.pos()))
}

func (w *Worker) convert(g *G, fr *Frame, ni *Instr) ctl {
	x := w.get(fr, &ni.a)
	from, to := ni.t2.Underlying(), ni.t.Underlying()
	if fw, fs, ok := intInfo(from); ok {
		if tw, ts, ok := intInfo(to); ok {
			switch v := x.(type) {
			case int64:
				fr.env[ni.dst] = norm(v, tw, ts)
			case *Term:
				fr.env[ni.dst] = w.lower(w.C.Resize(v, tw, fs), ts)
			}
			_ = fw
			return cNext
		}
		if tb, ok := to.(*types.Basic); ok {
			switch {
			case tb.Info()&types.IsString != 0:
				fr.env[ni.dst] = w.encodeRune(x, fw, fs)
				return cNext
			case tb.Info()&types.IsFloat != 0:
				v := w.concretizeT(x, fw, fs)
				var f float64
				if fs {
					f = float64(v)
				} else {
					f = float64(uint64(v))
				}
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				fr.env[ni.dst] = f
				return cNext
			case tb.Kind() == types.UnsafePointer:
				w.unsupported("uintptr to unsafe.Pointer")
			}
		}
	}
	if fb, ok := from.(*types.Basic); ok {
		switch {
		case fb.Info()&types.IsFloat != 0:
			f := x.(float64)
			if tw, ts, ok := intInfo(to); ok {
				if ts {
					fr.env[ni.dst] = norm(int64(f), tw, ts)
				} else {
					fr.env[ni.dst] = norm(int64(uint64(f)), tw, ts)
				}
				return cNext
			}
			if tb := to.(*types.Basic); tb.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			fr.env[ni.dst] = f
			return cNext
		case fb.Info()&types.IsString != 0:
			switch tt := to.(type) {
			case *types.Basic:
				fr.env[ni.dst] = x
				return cNext
			case *types.Slice:
				ew, _, _ := intInfo(tt.Elem())
				if ew == 8 {
					b := strBytes(x)
					n := make([]Value, len(b))
					copy(n, b)
					fr.env[ni.dst] = Slice{n}
					return cNext
				}
				var rs []Value
				for i := 0; i < strLen(x); {
					r, n := w.decodeRune(x, i)
					rs = append(rs, r)
					i += n
				}
				if rs == nil {
					rs = []Value{}
				}
				fr.env[ni.dst] = Slice{rs}
				return cNext
			}
		case fb.Kind() == types.UnsafePointer:
			if up, ok := x.(UnsafePtr); ok {
				if up.v == nil {
					fr.env[ni.dst] = zero(ni.t)
				} else {
					fr.env[ni.dst] = up.v
				}
				return cNext
			}
		}
	}
	if fs, ok := from.(*types.Slice); ok {
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := x.(Slice).s
			ew, _, _ := intInfo(fs.Elem())
			if ew == 8 {
				n := make([]Value, len(s))
				for i, v := range s {
					n[i] = v
				}
				fr.env[ni.dst] = normStr(n)
				return cNext
			}
			var acc Value = ""
			for _, r := range s {
				acc = strCat(acc, w.encodeRune(r, 32, true))
			}
			fr.env[ni.dst] = acc
			return cNext
		}
		fr.env[ni.dst] = x
		return cNext
	}
	if tb, ok := to.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		fr.env[ni.dst] = UnsafePtr{x}
		return cNext
	}
	if types.Identical(from, to) {
		fr.env[ni.dst] = x
		return cNext
	}
	if _, ok := to.(*types.Pointer); ok {
		fr.env[ni.dst] = x
		return cNext
	}
	w.unsupported(fmt.Sprintf("convert %v to %v", ni.t2, ni.t))
	return cNext
}

// decodeRune decodes the UTF-8 sequence at position i.
func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	n := strLen(s) - i
	C := w.C
	at := func(k int) Value { return strAt(s, i+k) }
	if n == 0 {
		return int64(0xFFFD), 0
	}
	rng := func(v Value, lo, hi int64) bool {
		switch v := v.(type) {
		case int64:
			return v >= lo && v <= hi
		case *Term:
			return w.branchT(C.And(C.Cmp(OUle, C.BV(uint64(lo), 8), v), C.Cmp(OUle, v, C.BV(uint64(hi), 8))))
		}
		panic("rng")
	}
	bits := func(v Value, m int64, sh uint) *Term {
		t := C.Resize(w.toBV(v, 8), 32, false)
		return C.Bin(OShl, C.Bin(OBAnd, t, C.BV(uint64(m), 32)), C.BV(uint64(sh), 32))
	}
	b0 := at(0)
	if rng(b0, 0, 0x7f) {
		if t, ok := b0.(*Term); ok {
			return w.lower(C.Resize(t, 32, false), true), 1
		}
		return b0, 1
	}
	bad := func() (Value, int) { return int64(0xFFFD), 1 }
	if n < 2 || !rng(b0, 0xC2, 0xF4) {
		return bad()
	}
	if rng(b0, 0xC2, 0xDF) {
		if !rng(at(1), 0x80, 0xBF) {
			return bad()
		}
		return w.lower(C.Bin(OBOr, bits(b0, 0x1f, 6), bits(at(1), 0x3f, 0)), true), 2
	}
	if rng(b0, 0xE0, 0xEF) {
		if n < 3 {
			return bad()
		}
		lo, hi := int64(0x80), int64(0xBF)
		if rng(b0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if rng(b0, 0xED, 0xED) {
			hi = 0x9F
		}
		if !rng(at(1), lo, hi) || !rng(at(2), 0x80, 0xBF) {
			return bad()
		}
		return w.lower(C.Bin(OBOr, C.Bin(OBOr, bits(b0, 0x0f, 12), bits(at(1), 0x3f, 6)), bits(at(2), 0x3f, 0)), true), 3
	}
	if n < 4 {
		return bad()
	}
	lo, hi := int64(0x80), int64(0xBF)
	if rng(b0, 0xF0, 0xF0) {
		lo = 0x90
	} else if rng(b0, 0xF4, 0xF4) {
		hi = 0x8F
	}
	if !rng(at(1), lo, hi) || !rng(at(2), 0x80, 0xBF) || !rng(at(3), 0x80, 0xBF) {
		return bad()
	}
	return w.lower(C.Bin(OBOr, C.Bin(OBOr, bits(b0, 0x07, 18), bits(at(1), 0x3f, 12)),
		C.Bin(OBOr, bits(at(2), 0x3f, 6), bits(at(3), 0x3f, 0))), true), 4
}

// encodeRune encodes an integer as a UTF-8 string.
func (w *Worker) encodeRune(v Value, wd uint8, signed bool) Value {
	if i, ok := v.(int64); ok {
		if i < 0 || i > 0x10FFFF {
			i = 0xFFFD
		}
		return string(rune(i))
	}
	C := w.C
	t := C.Resize(v.(*Term), 64, signed)
	lt := func(n uint64) bool { return w.branchT(C.Cmp(OUlt, t, C.BV(n, 64))) }
	byt := func(sh uint64, m, or uint64) Value {
		x := C.Bin(OBOr, C.Bin(OBAnd, C.Bin(OLShr, t, C.BV(sh, 64)), C.BV(m, 64)), C.BV(or, 64))
		return w.lower(C.Resize(x, 8, false), false)
	}
	if lt(0x80) {
		return normStr([]Value{w.lower(C.Resize(t, 8, false), false)})
	}
	if lt(0x800) {
		return normStr([]Value{byt(6, 0x1f, 0xC0), byt(0, 0x3f, 0x80)})
	}
	if !lt(0x110000) {
		return "\uFFFD"
	}
	if !lt(0xD800) && lt(0xE000) {
		return "\uFFFD"
	}
	if lt(0x10000) {
		return normStr([]Value{byt(12, 0x0f, 0xE0), byt(6, 0x3f, 0x80), byt(0, 0x3f, 0x80)})
	}
	return normStr([]Value{byt(18, 0x07, 0xF0), byt(12, 0x3f, 0x80), byt(6, 0x3f, 0x80), byt(0, 0x3f, 0x80)})
}

var _ = math.Inf

// permute chooses an iteration order (rotations and reversal).
func (w *Worker) permute(o []int) []int {
	n := len(o)
	if n > 3 {
		k := w.choose(2)
		if k == 1 {
			r := make([]int, n)
			for i := range o {
				r[i] = o[n-1-i]
			}
			return r
		}
		return o
	}
	rest := append([]int(nil), o...)
	var out []int
	for len(rest) > 0 {
		k := w.choose(len(rest))
		out = append(out, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return out
}
