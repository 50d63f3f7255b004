package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) builtin(g *G, fr *Frame, ni *Instr) ctl {
	args := make([]Value, len(ni.args))
	for i := range ni.args {
		args[i] = w.get(fr, &ni.args[i])
	}
	v := w.doBuiltin(g, fr, ni, ni.aux.(*ssa.Builtin), args)
	if ni.dst >= 0 {
		fr.env[ni.dst] = v
	}
	return cNext
}

func (w *Worker) deferredBuiltin(g *G, d *deferRec) {
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			fr := g.unfreeze()
			fr.mode = fmPanicking
			fr.pan = &panicRec{val: gp.val, where: w.pos()}
		}
	}()
	fr := g.unfreeze()
	w.doBuiltin(g, fr, d.bi, d.bi.aux.(*ssa.Builtin), d.args)
}

func (w *Worker) doBuiltin(g *G, fr *Frame, ni *Instr, b *ssa.Builtin, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return int64(strLen(x))
		case Slice:
			return int64(len(x.s))
		case *Map:
			if x == nil {
				return int64(0)
			}
			if w.race != nil {
				w.race.read(w, g, &x.race)
			}
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x.s))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "append":
		x := args[0].(Slice)
		if len(args) == 1 {
			return x
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y.s
		case string, *SymStr:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return x
		}
		n := len(x.s) + len(add)
		if n <= cap(x.s) {
			s := x.s[:n]
			for i, v := range add {
				p := &s[len(x.s)+i]
				if w.race != nil {
					w.race.write(w, g, p)
				}
				w.set(p, copyVal(v))
			}
			return Slice{s}
		}
		nc := cap(x.s) * 2
		if cap(x.s) > 256 {
			nc = cap(x.s) + cap(x.s)/4 + 192
		}
		if nc < n {
			nc = n
		}
		if et, ok := ni.t2.Underlying().(*types.Slice); ok && nc > n || ok && n < 8 {
			if ew, _, isInt := intInfo(et.Elem()); isInt && ew == 8 && nc < 8 {
				nc = 8
			}
		}
		s := make([]Value, n, nc)
		copy(s, x.s)
		for i, v := range add {
			s[len(x.s)+i] = copyVal(v)
		}
		if nc > n {
			if st, ok := ni.t2.Underlying().(*types.Slice); ok {
				f := s[:nc]
				for i := n; i < nc; i++ {
					f[i] = zero(st.Elem())
				}
			}
		}
		return Slice{s}
	case "copy":
		x := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y.s
		case string, *SymStr:
			src = strBytes(y)
		}
		n := len(x.s)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if w.race != nil {
				w.race.read(w, g, &src[i])
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if w.race != nil {
				w.race.write(w, g, &x.s[i])
			}
			w.set(&x.s[i], tmp[i])
		}
		return int64(n)
	case "close":
		w.chanClose(g, args[0].(*Chan))
		return nil
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			if w.race != nil {
				w.race.write(w, g, &m.race)
			}
			w.mapDel(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for i := range x.entries {
					if !x.entries[i].dead {
						w.mapDel(x, x.entries[i].key)
					}
				}
			}
		case Slice:
			et := ni.t2.Underlying().(*types.Slice).Elem()
			for i := range x.s {
				w.set(&x.s[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		// The caller must be a deferred function run by a panicking frame.
		if fr.isDefer && fr.caller != nil && fr.caller.mode == fmPanicking {
			if fr.caller.frozen {
				fr.caller = cloneFrame(fr.caller)
			}
			c := fr.caller
			c.mode = fmRecovered
			if w.X.opt.logPanics {
				fmt.Fprintf(os.Stderr, "recovered: %s at %s\n", show(c.pan.val, 0), c.pan.where)
			}
			return c.pan.val
		}
		return Iface{}
	case "print", "println":
		var p []string
		for _, a := range args {
			p = append(p, show(a, 0))
		}
		if w.tracing {
			fmt.Fprintln(os.Stderr, strings.Join(p, " "))
		}
		return nil
	case "min", "max":
		acc := args[0]
		for _, y := range args[1:] {
			acc = w.minmax(b.Name() == "min", acc, y, ni.t)
		}
		return acc
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.throwRT("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := w.concretize(args[1])
		switch p := args[0].(type) {
		case *strPtr:
			return normStr(append([]Value(nil), p.s[:n]...))
		case *Value:
			if n == 0 {
				return ""
			}
			return normStr(append([]Value(nil), w.sliceFrom(p, int(n))...))
		case UnsafePtr:
			if n == 0 {
				return ""
			}
		}
	case "StringData":
		return &strPtr{strBytes(args[0])}
	case "SliceData":
		s := args[0].(Slice)
		if cap(s.s) == 0 {
			return (*Value)(nil)
		}
		p := &s.s[:1][0]
		return strPtr{s.s[:cap(s.s)]}.link(p)
	}
	w.unsupported("builtin " + b.Name())
	return nil
}

// strPtr is a pointer to the first byte of a string or slice obtained with
// package unsafe; it can only be turned back into a string or slice.
type strPtr struct{ s []Value }

func (p strPtr) link(_ *Value) *strPtr { return &p }

func (w *Worker) sliceFrom(p *Value, n int) []Value {
	if n == 1 {
		return []Value{*p}
	}
	w.unsupported("unsafe.String of element pointer")
	return nil
}

func (w *Worker) minmax(min bool, a, b Value, t types.Type) Value {
	wd, sg, ok := intInfo(t)
	if ok {
		x, xo := a.(int64)
		y, yo := b.(int64)
		if xo && yo {
			less := x < y
			if !sg {
				less = uint64(x) < uint64(y)
			}
			if less == min {
				return a
			}
			return b
		}
		p, q := w.toBV(a, wd), w.toBV(b, wd)
		o := OUlt
		if sg {
			o = OSlt
		}
		c := w.C.Cmp(o, p, q)
		if !min {
			c = w.C.Not(c)
		}
		return w.lower(w.C.Ite(c, p, q), sg)
	}
	if x, ok := a.(float64); ok {
		if (x < b.(float64)) == min {
			return a
		}
		return b
	}
	if w.branch(w.strCmp(token.LSS, a, b)) == min {
		return a
	}
	return b
}

// --- maps ---

type compositeKey string

// hashKey converts a concrete key into a comparable Go value.
func hashKey(k Value) (any, bool) {
	switch k := k.(type) {
	case int64, bool, string, float64, *Value, *Chan, complex128:
		return k, true
	case *Term, *SymStr:
		return nil, false
	case Iface:
		if k.t == nil {
			return k, true
		}
		h, ok := hashKey(k.v)
		if !ok {
			return nil, false
		}
		return Iface{k.t, h}, true
	case UnsafePtr:
		return k, true
	case Struct:
		s := "S"
		for _, f := range k {
			h, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", h, h)
		}
		return compositeKey(s), true
	case Array:
		s := "A"
		for _, f := range k {
			h, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", h, h)
		}
		return compositeKey(s), true
	}
	panic(fmt.Sprintf("hashKey %T", k))
}

func uncomparable(k Value) string {
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			return i.t.String()
		}
	}
	return ""
}

// mapFind returns the entry index of key, or -1.
func (w *Worker) mapFind(m *Map, k Value) int {
	if s := uncomparable(k); s != "" {
		w.throwRT("hash of unhashable type " + s)
	}
	h, conc := hashKey(k)
	if conc {
		if i, ok := m.idx[h]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.entries {
		e := &m.entries[i]
		if e.dead {
			continue
		}
		if conc {
			if _, c := hashKey(e.key); c {
				continue
			}
		}
		eq := w.equal(k, e.key)
		if b, ok := eq.(bool); ok {
			if b {
				return i
			}
			continue
		}
		if w.branch(eq) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapGet(m *Map, k Value) (Value, Value) {
	if m == nil {
		return nil, false
	}
	// A symbolic key over scalar values needs no fork.
	if t, ok := k.(*Term); ok && m.sym == 0 && t.sort == SBV && m.n > 0 {
		sc := true
		for i := range m.entries {
			if e := &m.entries[i]; !e.dead {
				switch e.val.(type) {
				case bool, int64, *Term:
				default:
					sc = false
				}
			}
		}
		if sc {
			_, isInt, _ := intInfo(m.et)
			_ = isInt
			ewd, sg, okI := intInfo(m.et)
			var acc *Term
			found := w.C.False
			if okI {
				acc = w.C.BV(0, ewd)
			} else {
				acc = w.C.False
			}
			for i := range m.entries {
				e := &m.entries[i]
				if e.dead {
					continue
				}
				c := w.C.Eq(t, w.toBV(e.key, t.w))
				found = w.C.Or(found, c)
				var v *Term
				if okI {
					v = w.toBV(e.val, ewd)
				} else {
					v = w.toBool(e.val)
				}
				acc = w.C.Ite(c, v, acc)
			}
			if okI {
				return w.lower(acc, sg), w.lowerB(found)
			}
			return w.lowerB(acc), w.lowerB(found)
		}
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.entries[i].val, true
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	i := w.mapFind(m, k)
	if i >= 0 {
		e := &m.entries[i]
		old := e.val
		w.undoFn(func() { m.entries[i].val = old })
		e.val = v
		return
	}
	h, conc := hashKey(k)
	n := len(m.entries)
	m.entries = append(m.entries, mapEntry{key: copyVal(k), val: v})
	m.n++
	if conc {
		m.idx[h] = n
	} else {
		m.sym++
	}
	w.undoFn(func() {
		m.entries[n] = mapEntry{}
		m.entries = m.entries[:n]
		m.n--
		if conc {
			delete(m.idx, h)
		} else {
			m.sym--
		}
	})
}

func (w *Worker) mapDel(m *Map, k Value) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	e := &m.entries[i]
	h, conc := hashKey(e.key)
	e.dead = true
	m.n--
	if conc {
		delete(m.idx, h)
	} else {
		m.sym--
	}
	w.undoFn(func() {
		m.entries[i].dead = false
		m.n++
		if conc {
			m.idx[h] = i
		} else {
			m.sym++
		}
	})
}
