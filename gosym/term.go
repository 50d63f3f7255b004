package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Terms: hash-consed SMT terms with light simplification. One context per
// worker, so no locking.

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SInt
	SReal
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	ONeg
	OBNot
	OUlt
	OUle
	OSlt
	OSle
	OExtract
	OZExt
	OSExt
	OConcat
	// Int / Real
	OAAdd
	OAMul
	OANeg
	OALe
	OALt
	OADiv // real division
	OIDiv // Euclidean (SMT-LIB) integer division
	OIMod
	OToReal
	OToInt // floor
	OIsInt
	OBV2Int // signed
	OBV2Nat // unsigned
	OInt2BV
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OBNot: "bvnot",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OAAdd: "+", OAMul: "*", OANeg: "-", OALe: "<=", OALt: "<", OADiv: "/", OIDiv: "div", OIMod: "mod",
	OToReal: "to_real", OToInt: "to_int", OIsInt: "is_int", OBV2Nat: "bv2nat",
}

type Term struct {
	op   Op
	sort Sort
	w    uint8
	id   int32
	vi   int32
	val  uint64
	rat  *big.Rat
	name string
	args []*Term
	vars []int32

	bset   *byteSet
	nobits bool

	epoch int64
	evu   uint64
	evr   *big.Rat
}

type termKey struct {
	op         Op
	sort       Sort
	w          uint8
	a0, a1, a2 int32
	val        uint64
	s          string
}

type TermCtx struct {
	tab   map[termKey]*Term
	vars  []*Term
	next  int32
	epoch int64
	True  *Term
	False *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.True = c.mk(OConst, SBool, 0, 1, nil, "")
	c.False = c.mk(OConst, SBool, 0, 0, nil, "")
	return c
}

func mergeVars(args []*Term) []int32 {
	var out []int32
	n := 0
	for _, a := range args {
		if len(a.vars) > 0 {
			n++
			if n == 1 {
				out = a.vars
				continue
			}
			if &out[0] == &a.vars[0] {
				continue
			}
			// merge sorted
			merged := make([]int32, 0, len(out)+len(a.vars))
			i, j := 0, 0
			for i < len(out) || j < len(a.vars) {
				switch {
				case j >= len(a.vars) || (i < len(out) && out[i] < a.vars[j]):
					merged = append(merged, out[i])
					i++
				case i >= len(out) || a.vars[j] < out[i]:
					merged = append(merged, a.vars[j])
					j++
				default:
					merged = append(merged, out[i])
					i++
					j++
				}
			}
			out = merged
		}
	}
	return out
}

func (c *TermCtx) mk(op Op, s Sort, w uint8, val uint64, rat *big.Rat, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, w: w, val: val, s: name, a0: -1, a1: -1, a2: -1}
	if rat != nil {
		k.s = rat.String()
	}
	for i, a := range args {
		switch i {
		case 0:
			k.a0 = a.id
		case 1:
			k.a1 = a.id
		case 2:
			k.a2 = a.id
		default:
			k.s += fmt.Sprintf(",%d", a.id)
		}
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, w: w, val: val, rat: rat, name: name, id: c.next}
	c.next++
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
		t.vars = mergeVars(t.args)
	}
	c.tab[k] = t
	return t
}

// Variable numbers are the same in all workers, so that models can move
// between them.
var (
	varMu  sync.Mutex
	varNos = map[termKey]int32{}
)

func varIndex(k termKey) int32 {
	varMu.Lock()
	defer varMu.Unlock()
	n, ok := varNos[k]
	if !ok {
		n = int32(len(varNos))
		varNos[k] = n
	}
	return n
}

func varCount() int {
	varMu.Lock()
	defer varMu.Unlock()
	return len(varNos)
}

// Var returns (creating if needed) the variable with that index; variables
// are identified by creation order and name.
func (c *TermCtx) Var(name string, s Sort, w uint8) *Term {
	k := termKey{op: OVar, sort: s, w: w, s: name, a0: -1, a1: -1, a2: -1}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: OVar, sort: s, w: w, name: name, id: c.next, vi: varIndex(k)}
	c.next++
	t.vars = []int32{t.vi}
	c.vars = append(c.vars, t)
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	v &= mask(w)
	if v>>(w-1)&1 == 1 {
		v |= ^mask(w)
	}
	return int64(v)
}

func (c *TermCtx) BV(v uint64, w uint8) *Term {
	return c.mk(OConst, SBV, w, v&mask(w), nil, "")
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) IntC(r *big.Int) *Term {
	return c.mk(OConst, SInt, 0, 0, new(big.Rat).SetInt(r), "")
}

func (c *TermCtx) RealC(r *big.Rat) *Term {
	return c.mk(OConst, SReal, 0, 0, r, "")
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == ONot:
		return a.args[0]
	}
	return c.mk(ONot, SBool, 0, 0, nil, "", a)
}

func (c *TermCtx) And(args ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == c.False {
			return false
		}
		if a == c.True || seen[a] {
			return true
		}
		if a.op == OAnd {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if a.op == ONot && seen[a.args[0]] {
			return false
		}
		if n, ok := c.tab[termKey{op: ONot, sort: SBool, a0: a.id, a1: -1, a2: -1}]; ok && seen[n] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(OAnd, SBool, 0, 0, nil, "", out...)
}

func (c *TermCtx) Or(args ...*Term) *Term {
	n := make([]*Term, len(args))
	for i, a := range args {
		n[i] = c.Not(a)
	}
	return c.Not(c.And(n...))
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.sort == SBool {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if b.op == OIte && b.args[0] == cond {
		return c.Ite(cond, a, b.args[2])
	}
	if a.op == OIte && a.args[0] == cond {
		return c.Ite(cond, a.args[1], b)
	}
	return c.mk(OIte, a.sort, a.w, 0, nil, "", cond, a, b)
}

func iteConstDepth(t *Term, d int) bool {
	if t.isConst() {
		return true
	}
	if d == 0 || t.op != OIte {
		return false
	}
	return iteConstDepth(t.args[1], d-1) && iteConstDepth(t.args[2], d-1)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		if a.rat != nil && b.rat != nil {
			return c.Bool(a.rat.Cmp(b.rat) == 0)
		}
		return c.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort == SBool {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OZExt:
			x := a.args[0]
			if b.val > mask(x.w) {
				return c.False
			}
			return c.Eq(x, c.BV(b.val, x.w))
		case OSExt:
			x := a.args[0]
			if uint64(sext(b.val, x.w))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(x, c.BV(b.val, x.w))
		case OAdd:
			if a.args[1].isConst() && a.sort == SBV {
				return c.Eq(a.args[0], c.BV(b.val-a.args[1].val, a.w))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OEq, SBool, 0, 0, nil, "", a, b)
}

func evalBV(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBV")
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext(a, w) < sext(b, w)
	case OSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

// Bin builds a BV binary operation.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(evalBV(op, a.val, b.val, w), w)
	}
	switch op {
	case OSub:
		if a == b {
			return c.BV(0, w)
		}
		if b.isConst() {
			return c.Bin(OAdd, a, c.BV(-b.val, w))
		}
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return c.Bin(OAdd, a.args[0], c.BV(a.args[1].val+b.val, w))
			}
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && b.val&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
		case OBOr, OBXor:
			if b.val == 0 {
				return a
			}
		case OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Bin(op, a.args[1], b), c.Bin(op, a.args[2], b))
		}
	}
	return c.mk(op, SBV, w, 0, nil, "", a, b)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(evalCmp(op, a.val, b.val, a.w))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	// Compare of a zero extension with a constant.
	if a.op == OZExt && b.isConst() {
		x := a.args[0]
		bv := b.val
		if op == OSlt || op == OSle {
			if sext(bv, b.w) < 0 {
				return c.False
			}
		}
		if bv > mask(x.w) {
			return c.True
		}
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return c.Cmp(uop, x, c.BV(bv, x.w))
	}
	if b.op == OZExt && a.isConst() {
		x := b.args[0]
		av := a.val
		if op == OSlt || op == OSle {
			if sext(av, a.w) < 0 {
				return c.True
			}
		}
		if av > mask(x.w) {
			return c.False
		}
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return c.Cmp(uop, c.BV(av, x.w), x)
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return c.Cmp(uop, a.args[0], b.args[0])
	}
	if b.isConst() {
		switch {
		case op == OUlt && b.val == 0:
			return c.False
		case op == OUle && b.val == mask(a.w):
			return c.True
		case op == OUlt && b.val == 1:
			return c.Eq(a, c.BV(0, a.w))
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Cmp(op, a.args[1], b), c.Cmp(op, a.args[2], b))
		}
	}
	if a.isConst() {
		switch {
		case op == OUle && a.val == 0:
			return c.True
		case op == OUlt && a.val == mask(a.w):
			return c.False
		}
		if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
			return c.Ite(b.args[0], c.Cmp(op, a, b.args[1]), c.Cmp(op, a, b.args[2]))
		}
	}
	return c.mk(op, SBool, 0, 0, nil, "", a, b)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(-a.val, a.w)
	}
	return c.mk(ONeg, SBV, a.w, 0, nil, "", a)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.val, a.w)
	}
	return c.mk(OBNot, SBV, a.w, 0, nil, "", a)
}

// Resize converts a BV to width w (sign- or zero-extending, or truncating).
func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.isConst():
		if signed {
			return c.BV(uint64(sext(a.val, a.w)), w)
		}
		return c.BV(a.val, w)
	case w < a.w:
		if (a.op == OZExt || a.op == OSExt) && a.args[0].w >= w {
			return c.Resize(a.args[0], w, false)
		}
		if a.op == OZExt || a.op == OSExt {
			return c.Resize(a.args[0], w, a.op == OSExt)
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
		}
		return c.mk(OExtract, SBV, w, uint64(w-1)<<8, nil, "", a)
	case a.op == OIte && a.args[1].isConst() && a.args[2].isConst():
		return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
	case a.op == OZExt:
		return c.mk(OZExt, SBV, w, 0, nil, "", a.args[0])
	case signed:
		return c.mk(OSExt, SBV, w, 0, nil, "", a)
	default:
		return c.mk(OZExt, SBV, w, 0, nil, "", a)
	}
}

// Arithmetic over Int and Real.

func ratOf(c *TermCtx, s Sort, r *big.Rat) *Term {
	return c.mk(OConst, s, 0, 0, r, "")
}

func (c *TermCtx) AAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ratOf(c, a.sort, new(big.Rat).Add(a.rat, b.rat))
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return b
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	return c.mk(OAAdd, a.sort, 0, 0, nil, "", a, b)
}

func (c *TermCtx) ANeg(a *Term) *Term {
	if a.isConst() {
		return ratOf(c, a.sort, new(big.Rat).Neg(a.rat))
	}
	if a.op == OANeg {
		return a.args[0]
	}
	return c.mk(OANeg, a.sort, 0, 0, nil, "", a)
}

func (c *TermCtx) ASub(a, b *Term) *Term { return c.AAdd(a, c.ANeg(b)) }

func (c *TermCtx) AMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ratOf(c, a.sort, new(big.Rat).Mul(a.rat, b.rat))
	}
	return c.mk(OAMul, a.sort, 0, 0, nil, "", a, b)
}

func (c *TermCtx) ADiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.rat.Sign() != 0 {
		return ratOf(c, SReal, new(big.Rat).Quo(a.rat, b.rat))
	}
	return c.mk(OADiv, SReal, 0, 0, nil, "", a, b)
}

func ratInt(r *big.Rat) *big.Int { return new(big.Int).Set(r.Num()) }

func (c *TermCtx) IDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.rat.Sign() != 0 {
		q, m := new(big.Int).DivMod(ratInt(a.rat), ratInt(b.rat), new(big.Int))
		_ = m
		return c.IntC(q)
	}
	return c.mk(OIDiv, SInt, 0, 0, nil, "", a, b)
}

func (c *TermCtx) IMod(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.rat.Sign() != 0 {
		_, m := new(big.Int).DivMod(ratInt(a.rat), ratInt(b.rat), new(big.Int))
		return c.IntC(m)
	}
	return c.mk(OIMod, SInt, 0, 0, nil, "", a, b)
}

func (c *TermCtx) ALe(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.rat.Cmp(b.rat) <= 0)
	}
	return c.mk(OALe, SBool, 0, 0, nil, "", a, b)
}

func (c *TermCtx) ALt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.rat.Cmp(b.rat) < 0)
	}
	return c.mk(OALt, SBool, 0, 0, nil, "", a, b)
}

func (c *TermCtx) ToReal(a *Term) *Term {
	if a.isConst() {
		return c.RealC(a.rat)
	}
	return c.mk(OToReal, SReal, 0, 0, nil, "", a)
}

func floorRat(r *big.Rat) *big.Int {
	q, _ := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	return q
}

func (c *TermCtx) ToInt(a *Term) *Term {
	if a.isConst() {
		return c.IntC(floorRat(a.rat))
	}
	if a.op == OToReal {
		return a.args[0]
	}
	return c.mk(OToInt, SInt, 0, 0, nil, "", a)
}

func (c *TermCtx) IsInt(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.rat.IsInt())
	}
	if a.op == OToReal {
		return c.True
	}
	return c.mk(OIsInt, SBool, 0, 0, nil, "", a)
}

func (c *TermCtx) BV2Int(a *Term, signed bool) *Term {
	if a.isConst() {
		if signed {
			return c.IntC(big.NewInt(sext(a.val, a.w)))
		}
		return c.IntC(new(big.Int).SetUint64(a.val))
	}
	if a.op == OInt2BV && signed && a.args[0].op == OVar {
		// Not an identity in general (wraps), so keep it.
	}
	if signed {
		return c.mk(OBV2Int, SInt, 0, 0, nil, "", a)
	}
	return c.mk(OBV2Nat, SInt, 0, 0, nil, "", a)
}

func (c *TermCtx) Int2BV(a *Term, w uint8) *Term {
	if a.isConst() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		_, r := new(big.Int).DivMod(ratInt(a.rat), m, new(big.Int))
		return c.BV(r.Uint64(), w)
	}
	if (a.op == OBV2Int || a.op == OBV2Nat) && a.args[0].w == w {
		return a.args[0]
	}
	return c.mk(OInt2BV, SBV, w, 0, nil, "", a)
}

// Model: values by variable index.

type MVal struct {
	u uint64
	r *big.Rat
}

type Model []MVal

func (m Model) get(i int32, s Sort) MVal {
	if int(i) < len(m) {
		v := m[i]
		if (s == SInt || s == SReal) && v.r == nil {
			v.r = new(big.Rat)
		}
		return v
	}
	if s == SInt || s == SReal {
		return MVal{r: new(big.Rat)}
	}
	return MVal{}
}

// Eval evaluates t under m. Callers bump c.epoch when m changes.
func (c *TermCtx) Eval(t *Term, m Model) MVal {
	if t.op == OConst {
		return MVal{u: t.val, r: t.rat}
	}
	if t.epoch == c.epoch {
		return MVal{u: t.evu, r: t.evr}
	}
	v := c.eval1(t, m)
	t.epoch, t.evu, t.evr = c.epoch, v.u, v.r
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) eval1(t *Term, m Model) MVal {
	ev := func(i int) MVal { return c.Eval(t.args[i], m) }
	switch t.op {
	case OVar:
		v := m.get(t.vi, t.sort)
		if t.sort == SBV {
			v.u &= mask(t.w)
		}
		return v
	case ONot:
		return MVal{u: 1 - ev(0).u}
	case OAnd:
		for i := range t.args {
			if ev(i).u == 0 {
				return MVal{u: 0}
			}
		}
		return MVal{u: 1}
	case OIte:
		if ev(0).u == 1 {
			return ev(1)
		}
		return ev(2)
	case OEq:
		a, b := ev(0), ev(1)
		if t.args[0].sort == SInt || t.args[0].sort == SReal {
			return MVal{u: b2u(a.r.Cmp(b.r) == 0)}
		}
		return MVal{u: b2u(a.u == b.u)}
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		return MVal{u: evalBV(t.op, ev(0).u, ev(1).u, t.w)}
	case ONeg:
		return MVal{u: -ev(0).u & mask(t.w)}
	case OBNot:
		return MVal{u: ^ev(0).u & mask(t.w)}
	case OUlt, OUle, OSlt, OSle:
		return MVal{u: b2u(evalCmp(t.op, ev(0).u, ev(1).u, t.args[0].w))}
	case OExtract:
		lo := t.val & 0xff
		return MVal{u: (ev(0).u >> lo) & mask(t.w)}
	case OZExt:
		return ev(0)
	case OSExt:
		return MVal{u: uint64(sext(ev(0).u, t.args[0].w)) & mask(t.w)}
	case OAAdd:
		return MVal{r: new(big.Rat).Add(ev(0).r, ev(1).r)}
	case OAMul:
		return MVal{r: new(big.Rat).Mul(ev(0).r, ev(1).r)}
	case OANeg:
		return MVal{r: new(big.Rat).Neg(ev(0).r)}
	case OALe:
		return MVal{u: b2u(ev(0).r.Cmp(ev(1).r) <= 0)}
	case OALt:
		return MVal{u: b2u(ev(0).r.Cmp(ev(1).r) < 0)}
	case OADiv:
		d := ev(1).r
		if d.Sign() == 0 {
			return MVal{r: new(big.Rat)}
		}
		return MVal{r: new(big.Rat).Quo(ev(0).r, d)}
	case OIDiv, OIMod:
		d := ev(1).r
		if d.Sign() == 0 {
			return MVal{r: new(big.Rat)}
		}
		q, r := new(big.Int).DivMod(ratInt(ev(0).r), ratInt(d), new(big.Int))
		if t.op == OIDiv {
			return MVal{r: new(big.Rat).SetInt(q)}
		}
		return MVal{r: new(big.Rat).SetInt(r)}
	case OToReal:
		return ev(0)
	case OToInt:
		return MVal{r: new(big.Rat).SetInt(floorRat(ev(0).r))}
	case OIsInt:
		return MVal{u: b2u(ev(0).r.IsInt())}
	case OBV2Int:
		return MVal{r: new(big.Rat).SetInt64(sext(ev(0).u, t.args[0].w))}
	case OBV2Nat:
		return MVal{r: new(big.Rat).SetInt(new(big.Int).SetUint64(ev(0).u))}
	case OInt2BV:
		md := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		_, r := new(big.Int).DivMod(ratInt(ev(0).r), md, new(big.Int))
		return MVal{u: r.Uint64()}
	}
	panic(fmt.Sprintf("eval %d", t.op))
}

func sortStr(s Sort, w uint8) string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SReal:
		return "Real"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ratStr(r *big.Rat, s Sort) string {
	num := new(big.Int).Abs(r.Num()).String()
	if s == SReal {
		num += ".0"
		if !r.IsInt() {
			num = "(/ " + num + " " + r.Denom().String() + ".0)"
		}
	}
	if r.Sign() < 0 {
		return "(- " + num + ")"
	}
	return num
}

// head returns the SMT-LIB operator of t given printed arguments.
func (t *Term) smt(arg func(*Term) string) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SBV:
			if t.w%4 == 0 {
				return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
			}
			return fmt.Sprintf("#b%0*b", int(t.w), t.val)
		default:
			return ratStr(t.rat, t.sort)
		}
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, arg(t.args[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, arg(t.args[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, arg(t.args[0]))
	case OInt2BV:
		return fmt.Sprintf("((_ int2bv %d) %s)", t.w, arg(t.args[0]))
	case OBV2Int:
		a := arg(t.args[0])
		w := t.args[0].w
		p := new(big.Int).Lsh(big.NewInt(1), uint(w))
		return fmt.Sprintf("(ite (bvslt %s %s) (- (bv2nat %s) %s) (bv2nat %s))",
			a, fmt.Sprintf("(_ bv0 %d)", w), a, p.String(), a)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(arg(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// String prints a term as a tree (for small terms in reports).
func (t *Term) String() string {
	n := 0
	var p func(t *Term) string
	p = func(t *Term) string {
		n++
		if n > 400 {
			return "..."
		}
		if t.op == OVar {
			return t.name
		}
		return t.smt(p)
	}
	return p(t)
}
