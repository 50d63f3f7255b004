// Package hcore checks the commands and types that need no interpreter.
package hcore

import (
	"math/big"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/rational"
	"github.com/michaelmacinnis/oh/internal/common/type/chn"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/commands"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

func fn(name string) func(cell.I) cell.I {
	f, ok := commands.Functions()[name]
	sx.Assert(ok, "no command "+name)
	return f
}

type operand struct {
	c  cell.I
	r  *big.Rat // nil when it is not a number
	s  string
	v  *big.Rat // the Rat inside c, for cells that hold one
	at string
}

func rat(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("bad rat " + s)
	}
	return r
}

var numerals = []string{"3", "-1/2", "36893488147419103232", "0.125", "1e2", "-0"}

// arg makes an arbitrary operand.
func arg(name string, wide bool) *operand {
	n := 4
	if wide {
		n = 5 + len(numerals) + 5
	}
	k := sx.Choice(name+".kind", n)
	o := &operand{}
	switch k {
	case 0:
		o.r = sx.Rat(name + ".num")
		o.v = new(big.Rat).Set(o.r)
		o.c = num.Rat(o.v)
	case 1:
		o.r = sx.Rat(name + ".status")
		o.v = new(big.Rat).Set(o.r)
		o.c = status.Rat(o.v)
	case 2:
		o.r = rat("-7/2")
		o.s = "-7/2"
		o.c = sym.New(o.s)
	case 3:
		o.s = "x"
		o.c = sym.New(o.s)
	case 4:
		o.s = "3"
		o.c = str.New(o.s)
	default:
		k -= 5
		if k < len(numerals) {
			o.s = numerals[k]
			o.r = rat(o.s)
			o.c = sym.New(o.s)
			break
		}
		switch k - len(numerals) {
		case 0:
			o.c = pair.Null
		case 1:
			o.c = list.New(num.Int(1), num.Int(2))
		case 2:
			o.c = chn.New(1)
		case 3:
			o.s = "1/0"
			o.c = sym.New(o.s)
		case 4:
			o.s = ""
			o.c = sym.New(o.s)
		}
	}
	return o
}

func args(n int, wide bool) ([]*operand, cell.I) {
	var os []*operand
	var cs []cell.I
	for i := 0; i < n; i++ {
		o := arg("x", wide)
		os = append(os, o)
		cs = append(cs, o.c)
	}
	return os, list.New(cs...)
}

func unchanged(os []*operand, what string) {
	for _, o := range os {
		if o.v != nil {
			sx.Assert(o.v.Cmp(o.r) == 0, what+" changed an operand")
		}
		if o.s != "" {
			if sym.Is(o.c) {
				sx.Assert(sym.To(o.c).String() == o.s, what+" changed an operand")
			}
		}
	}
}

// Arith checks add, sub, mul, div and mod.
func Arith() {
	ops := []string{"add", "sub", "mul", "div", "mod"}
	op := ops[sx.Choice("op", len(ops))]
	n := sx.Choice("n", sx.Param("n", 3)+1)
	os, l := args(n, n <= sx.Param("wide", 2))
	f := fn(op)
	r, _, failed := hv.Call(func() cell.I { return f(l) })

	want, ok := arith(op, os)
	sx.Assert(failed == !ok, op+" "+map[bool]string{true: "accepted invalid operands", false: "rejected valid operands"}[!ok])
	unchanged(os, op)
	if !failed {
		sx.Assert(num.Is(r), op+" did not give a number")
		got := num.To(r).Rat()
		sx.Assert(got.Cmp(want) == 0, op+" is not exact")
		for _, o := range os {
			sx.Assert(r != o.c && (o.v == nil || got != o.v), op+" returned an operand, not a new number")
		}
		sx.Reach(op)
	} else {
		sx.Reach(op + " error")
	}
	// The same operands give the same result again.
	r2, _, failed2 := hv.Call(func() cell.I { return f(l) })
	sx.Assert(failed == failed2, op+" differs when repeated")
	if !failed {
		sx.Assert(rational.Number(r2).Cmp(want) == 0, op+" differs when repeated")
		sx.Assert(r2 != r, op+" returned the same cell twice")
		sx.Assert(num.To(r).Rat().Cmp(want) == 0, op+" changed an earlier result")
	}
}

func arith(op string, os []*operand) (*big.Rat, bool) {
	for _, o := range os {
		if o.r == nil {
			return nil, false
		}
	}
	if op == "mod" {
		if len(os) != 2 || !os[0].r.IsInt() || !os[1].r.IsInt() || os[1].r.Sign() == 0 {
			return nil, false
		}
		m := new(big.Int).Mod(os[0].r.Num(), os[1].r.Num())
		return new(big.Rat).SetInt(m), true
	}
	t := new(big.Rat)
	if op == "add" {
		for _, o := range os {
			t.Add(t, o.r)
		}
		return t, true
	}
	if len(os) == 0 {
		return nil, false
	}
	t.Set(os[0].r)
	for _, o := range os[1:] {
		switch op {
		case "sub":
			t.Sub(t, o.r)
		case "mul":
			t.Mul(t, o.r)
		case "div":
			if o.r.Sign() == 0 {
				return nil, false
			}
			t.Quo(t, o.r)
		}
	}
	return t, true
}

// Order checks lt?, le?, gt? and ge?.
func Order() {
	ops := []string{"lt?", "le?", "gt?", "ge?"}
	op := ops[sx.Choice("op", len(ops))]
	n := sx.Choice("n", sx.Param("n", 3)+1)
	os, l := args(n, n <= sx.Param("wide", 2))
	f := fn(op)
	r, _, failed := hv.Call(func() cell.I { return f(l) })
	unchanged(os, op)
	if n < 2 {
		sx.Assert(failed, op+" accepted too few operands")
		sx.Reach("few")
		return
	}
	want, examined := true, true // examined: no operand but numbers up to the deciding pair
	for i, o := range os {
		if i > 0 && want && examined && os[i].r != nil {
			c := os[i-1].r.Cmp(o.r)
			switch op {
			case "lt?":
				want = c < 0
			case "le?":
				want = c <= 0
			case "gt?":
				want = c > 0
			case "ge?":
				want = c >= 0
			}
			if !want {
				break
			}
		}
		if o.r == nil {
			examined = false
			break
		}
	}
	if !examined {
		sx.Assert(failed, op+" accepted an operand that is not a number")
		sx.Reach(op + " error")
		return
	}
	if failed {
		// Only acceptable when an operand after the deciding pair is bad.
		bad := false
		for _, o := range os {
			bad = bad || o.r == nil
		}
		sx.Assert(bad, op+" rejected valid operands")
		return
	}
	if want {
		sx.Assert(r == sym.True, op+" is not true when every pair is in order")
		sx.Reach(op + " true")
	} else {
		sx.Assert(r == pair.Null, op+" is not false when some pair is out of order")
		sx.Reach(op + " false")
	}
}

func numInt(i int) cell.I { return num.Int(i) }
