package main

import (
	"math/big"
)

// math/big modelled as SMT integers and reals. The numerator slot of the
// struct holds the value: Rat{a Int{neg, abs}, b Int{neg, abs}} keeps a
// BigRat or (when known to be an integer) a BigInt in a.neg.

func intSlot(w *Worker, p Value) *Value { return &(*ptr(w, p)).(Struct)[0] }

func ratSlot(w *Worker, p Value) *Value {
	a := &(*ptr(w, p)).(Struct)[0]
	return &(*a).(Struct)[0]
}

func (w *Worker) getInt(p Value) *Term {
	switch v := (*intSlot(w, p)).(type) {
	case bool:
		return w.C.IntC(new(big.Int))
	case BigInt:
		return v.t
	case BigRat:
		return w.C.ToInt(v.t)
	}
	panic("getInt")
}

func (w *Worker) getRat(p Value) *Term {
	switch v := (*ratSlot(w, p)).(type) {
	case bool:
		return w.C.RealC(new(big.Rat))
	case BigInt:
		return w.C.ToReal(v.t)
	case BigRat:
		return v.t
	}
	panic("getRat")
}

func (w *Worker) setInt(p Value, t *Term) { w.set(intSlot(w, p), BigInt{t}) }
func (w *Worker) setRat(p Value, t *Term) { w.set(ratSlot(w, p), BigRat{t}) }

func (w *Worker) bvToInt(v Value, signed bool) *Term {
	switch v := v.(type) {
	case int64:
		if signed {
			return w.C.IntC(big.NewInt(v))
		}
		return w.C.IntC(new(big.Int).SetUint64(uint64(v)))
	case *Term:
		return w.C.BV2Int(v, signed)
	}
	panic("bvToInt")
}

func (w *Worker) bigPanic(msg string) { panic(goPanic{w.rtPlain(msg)}) }

var ratReps = func() []*big.Rat {
	var out []*big.Rat
	for _, s := range []string{"1/3", "-7/2", "9007199254740993", "9007199254740992", "0", "1", "-1", "2", "3", "-4", "18446744073709551617/5", "1000000000000000000000000000001", "-3/10"} {
		r, _ := new(big.Rat).SetString(s)
		out = append(out, r)
	}
	return out
}()

// concRat replaces a symbolic number by representatives when the code needs
// its digits; the other values are reported as outside the encoding.
func (w *Worker) concRat(t *Term) *big.Rat {
	if t.isConst() {
		return t.rat
	}
	for _, r := range ratReps {
		if w.branchT(w.C.Eq(t, w.C.RealC(r))) {
			return r
		}
	}
	w.unsupported("digits of a symbolic number (representatives only)")
	return nil
}

func addBig(m map[string]intrinsic) {
	const R, I = "(*math/big.Rat).", "(*math/big.Int)."
	ratZero := new(big.Rat)
	newRat := func() *Value {
		p := new(Value)
		*p = Struct{Struct{false, Slice{}}, Struct{false, Slice{}}}
		return p
	}
	newInt := func() *Value {
		p := new(Value)
		*p = Struct{false, Slice{}}
		return p
	}
	bin := func(f func(w *Worker, a, b *Term) *Term) intrinsic {
		return func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
			t := f(w, w.getRat(a[1]), w.getRat(a[2]))
			w.setRat(a[0], t)
			return a[0], cNext
		}
	}
	m[R+"Add"] = bin(func(w *Worker, a, b *Term) *Term { return w.C.AAdd(a, b) })
	m[R+"Sub"] = bin(func(w *Worker, a, b *Term) *Term { return w.C.ASub(a, b) })
	m[R+"Mul"] = bin(func(w *Worker, a, b *Term) *Term { return w.C.AMul(a, b) })
	m[R+"Quo"] = bin(func(w *Worker, a, b *Term) *Term {
		if w.branchT(w.C.Eq(b, w.C.RealC(ratZero))) {
			w.bigPanic("division by zero")
		}
		return w.C.ADiv(a, b)
	})
	m[R+"Neg"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setRat(a[0], w.C.ANeg(w.getRat(a[1])))
		return a[0], cNext
	}
	m[R+"Inv"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		b := w.getRat(a[1])
		if w.branchT(w.C.Eq(b, w.C.RealC(ratZero))) {
			w.bigPanic("division by zero")
		}
		w.setRat(a[0], w.C.ADiv(w.C.RealC(big.NewRat(1, 1)), b))
		return a[0], cNext
	}
	m[R+"Abs"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		t := w.getRat(a[1])
		w.setRat(a[0], w.C.Ite(w.C.ALt(t, w.C.RealC(ratZero)), w.C.ANeg(t), t))
		return a[0], cNext
	}
	m[R+"Set"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setRat(a[0], w.getRat(a[1]))
		return a[0], cNext
	}
	m[R+"SetInt"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setRat(a[0], w.C.ToReal(w.getInt(a[1])))
		return a[0], cNext
	}
	m[R+"SetInt64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setRat(a[0], w.C.ToReal(w.bvToInt(a[1], true)))
		return a[0], cNext
	}
	m[R+"SetUint64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setRat(a[0], w.C.ToReal(w.bvToInt(a[1], false)))
		return a[0], cNext
	}
	frac := func(w *Worker, n, d *Term) *Term {
		if w.branchT(w.C.Eq(d, w.C.IntC(new(big.Int)))) {
			w.bigPanic("division by zero")
		}
		if d.isConst() && d.rat.Cmp(big.NewRat(1, 1)) == 0 {
			return w.C.ToReal(n)
		}
		return w.C.ADiv(w.C.ToReal(n), w.C.ToReal(d))
	}
	m["math/big.NewRat"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		t := frac(w, w.bvToInt(a[0], true), w.bvToInt(a[1], true))
		p := newRat()
		w.setRat(p, t)
		return p, cNext
	}
	m[R+"SetFrac64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setRat(a[0], frac(w, w.bvToInt(a[1], true), w.bvToInt(a[2], true)))
		return a[0], cNext
	}
	m[R+"SetFrac"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setRat(a[0], frac(w, w.getInt(a[1]), w.getInt(a[2])))
		return a[0], cNext
	}
	cmp := func(w *Worker, a, b *Term) Value {
		C := w.C
		return w.lower(C.Ite(C.ALt(a, b), C.BV(^uint64(0), 64), C.Ite(C.Eq(a, b), C.BV(0, 64), C.BV(1, 64))), true)
	}
	m[R+"Cmp"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return cmp(w, w.getRat(a[0]), w.getRat(a[1])), cNext
	}
	m[R+"Sign"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return cmp(w, w.getRat(a[0]), w.C.RealC(ratZero)), cNext
	}
	m[R+"IsInt"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.lowerB(w.C.IsInt(w.getRat(a[0]))), cNext
	}
	m[R+"Num"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		t := w.getRat(a[0])
		if w.branchT(w.C.IsInt(t)) {
			w.set(ratSlot(w, a[0]), BigInt{w.C.ToInt(t)})
			return &(*a[0].(*Value)).(Struct)[0], cNext
		}
		p := newInt()
		if t.isConst() {
			w.setInt(p, w.C.IntC(t.rat.Num()))
			return p, cNext
		}
		w.setInt(p, w.C.IntC(w.concRat(t).Num()))
		return p, cNext
	}
	m[R+"Denom"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		t := w.getRat(a[0])
		p := newInt()
		if w.branchT(w.C.IsInt(t)) {
			w.setInt(p, w.C.IntC(big.NewInt(1)))
			return p, cNext
		}
		if t.isConst() {
			w.setInt(p, w.C.IntC(t.rat.Denom()))
			return p, cNext
		}
		w.setInt(p, w.C.IntC(w.concRat(t).Denom()))
		return p, cNext
	}
	m[R+"SetString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		s := goStr(w, a[1])
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return Tuple{(*Value)(nil), false}, cNext
		}
		w.setRat(a[0], w.C.RealC(r))
		return Tuple{a[0], true}, cNext
	}
	conc := func(w *Worker, t *Term) *big.Rat { return w.concRat(t) }
	m[R+"RatString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return conc(w, w.getRat(a[0])).RatString(), cNext
	}
	m[R+"String"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return conc(w, w.getRat(a[0])).String(), cNext
	}
	m[R+"FloatString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return conc(w, w.getRat(a[0])).FloatString(int(w.concretize(a[1]))), cNext
	}
	m[R+"Float64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		f, e := conc(w, w.getRat(a[0])).Float64()
		return Tuple{f, e}, cNext
	}
	// Int
	m["math/big.NewInt"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		p := newInt()
		w.setInt(p, w.bvToInt(a[0], true))
		return p, cNext
	}
	ibin := func(f func(w *Worker, a, b *Term) *Term) intrinsic {
		return func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
			t := f(w, w.getInt(a[1]), w.getInt(a[2]))
			w.setInt(a[0], t)
			return a[0], cNext
		}
	}
	zeroI := func(w *Worker) *Term { return w.C.IntC(new(big.Int)) }
	chk := func(w *Worker, b *Term) {
		if w.branchT(w.C.Eq(b, zeroI(w))) {
			w.bigPanic("division by zero")
		}
	}
	m[I+"Add"] = ibin(func(w *Worker, a, b *Term) *Term { return w.C.AAdd(a, b) })
	m[I+"Sub"] = ibin(func(w *Worker, a, b *Term) *Term { return w.C.ASub(a, b) })
	m[I+"Mul"] = ibin(func(w *Worker, a, b *Term) *Term { return w.C.AMul(a, b) })
	m[I+"Mod"] = ibin(func(w *Worker, a, b *Term) *Term { chk(w, b); return w.C.IMod(a, b) })
	m[I+"Div"] = ibin(func(w *Worker, a, b *Term) *Term { chk(w, b); return w.C.IDiv(a, b) })
	// Truncated: Quo(a,b) = sgn(a) * (|a| div b); Rem = a - b*Quo.
	tq := func(w *Worker, a, b *Term) *Term {
		C := w.C
		return C.Ite(C.ALt(a, zeroI(w)), C.ANeg(C.IDiv(C.ANeg(a), b)), C.IDiv(a, b))
	}
	m[I+"Quo"] = ibin(func(w *Worker, a, b *Term) *Term { chk(w, b); return tq(w, a, b) })
	m[I+"Rem"] = ibin(func(w *Worker, a, b *Term) *Term {
		chk(w, b)
		C := w.C
		// a rem b has the sign of a and magnitude |a| mod |b|.
		return C.Ite(C.ALt(a, zeroI(w)), C.ANeg(C.IMod(C.ANeg(a), b)), C.IMod(a, b))
	})
	m[I+"Neg"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setInt(a[0], w.C.ANeg(w.getInt(a[1])))
		return a[0], cNext
	}
	m[I+"Abs"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		t := w.getInt(a[1])
		w.setInt(a[0], w.C.Ite(w.C.ALt(t, zeroI(w)), w.C.ANeg(t), t))
		return a[0], cNext
	}
	m[I+"Set"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setInt(a[0], w.getInt(a[1]))
		return a[0], cNext
	}
	m[I+"SetInt64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setInt(a[0], w.bvToInt(a[1], true))
		return a[0], cNext
	}
	m[I+"SetUint64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		w.setInt(a[0], w.bvToInt(a[1], false))
		return a[0], cNext
	}
	m[I+"Cmp"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return cmp(w, w.getInt(a[0]), w.getInt(a[1])), cNext
	}
	m[I+"Sign"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return cmp(w, w.getInt(a[0]), zeroI(w)), cNext
	}
	inRange := func(w *Worker, t *Term, lo, hi string) *Term {
		l, _ := new(big.Int).SetString(lo, 10)
		h, _ := new(big.Int).SetString(hi, 10)
		return w.C.And(w.C.ALe(w.C.IntC(l), t), w.C.ALe(t, w.C.IntC(h)))
	}
	m[I+"IsInt64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.lowerB(inRange(w, w.getInt(a[0]), "-9223372036854775808", "9223372036854775807")), cNext
	}
	m[I+"IsUint64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.lowerB(inRange(w, w.getInt(a[0]), "0", "18446744073709551615")), cNext
	}
	m[I+"Int64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.lower(w.C.Int2BV(w.getInt(a[0]), 64), true), cNext
	}
	m[I+"Uint64"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return w.lower(w.C.Int2BV(w.getInt(a[0]), 64), false), cNext
	}
	m[I+"String"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return ratInt(conc(w, w.getInt(a[0]))).String(), cNext
	}
	m[I+"SetString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		r, ok := new(big.Int).SetString(goStr(w, a[1]), int(w.concretize(a[2])))
		if !ok {
			return Tuple{(*Value)(nil), false}, cNext
		}
		w.setInt(a[0], w.C.IntC(r))
		return Tuple{a[0], true}, cNext
	}
}
