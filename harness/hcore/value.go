package hcore

import (
	"sort"

	"github.com/michaelmacinnis/oh/internal/common/interface/boolean"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/create"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/commands"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

var allKinds = []int{hv.Num, hv.Status, hv.Sym, hv.Str, hv.Null, hv.Pair, hv.Chan, hv.Env, hv.Obj}

func opt() hv.Opt {
	return hv.Opt{Kinds: allKinds, Len: sx.Param("len", 1), Depth: sx.Param("depth", 1), Ident: 1}
}

func eq(a, b *hv.V) bool {
	var got bool
	_, msg, failed := hv.Call(func() cell.I {
		got = a.C.Equal(b.C)
		return nil
	})
	sx.Assert(!failed, "comparing two values raised an error: "+msg)
	return got
}

// EqualPair checks the equality of every two values.
func EqualPair() {
	a, b := hv.Gen("a", opt()), hv.Gen("b", opt())
	want := hv.Same(a, b)
	sx.Assert(eq(a, b) == want, "equality of two values is wrong")
	sx.Assert(eq(b, a) == want, "equality is not symmetric")
	sx.Assert(eq(a, a) && eq(b, b), "equality is not reflexive")
	sx.Assert(hv.Kept(a) && hv.Kept(b), "comparing changed a value")
	if want {
		sx.Reach("equal")
	} else {
		sx.Reach("different")
	}
}

// EqualDeep checks structures built from few kinds more deeply.
func EqualDeep() {
	o := hv.Opt{Kinds: []int{hv.Str, hv.Null, hv.Pair}, Len: 1, Depth: sx.Param("depth", 2), Ident: 1}
	a, b := hv.Gen("a", o), hv.Gen("b", o)
	want := hv.Same(a, b)
	sx.Assert(eq(a, b) == want, "equality of two values is wrong")
	sx.Assert(eq(b, a) == want, "equality is not symmetric")
	sx.Reach("deep")
}

// EqualLists compares lists of symbolic elements of any two lengths.
func EqualLists() {
	mk := func(name string) ([]string, cell.I) {
		n := sx.Choice(name+".n", sx.Param("n", 4)+1)
		var ss []string
		var cs []cell.I
		for i := 0; i < n; i++ {
			s := sx.Str(name, 1)
			ss = append(ss, s)
			cs = append(cs, str.New(s))
		}
		return ss, list.New(cs...)
	}
	a, la := mk("a")
	b, lb := mk("b")
	want := len(a) == len(b)
	if want {
		for i := 0; i < len(a); i++ {
			want = sx.And(want, a[i] == b[i])
		}
	}
	got := la.Equal(lb)
	sx.Assert(got == want, "lists compare wrongly")
	sx.Reach("lists")
}

// EqualChain checks equal? on any number of values.
func EqualChain() {
	n := sx.Choice("n", sx.Param("n", 3)+1)
	var vs []*hv.V
	var cs []cell.I
	o := hv.Opt{Kinds: []int{hv.Num, hv.Status, hv.Str, hv.Sym, hv.Null, hv.Pair, hv.Obj}, Len: 1, Depth: 0, Ident: 1}
	for i := 0; i < n; i++ {
		v := hv.Gen("x", o)
		vs = append(vs, v)
		cs = append(cs, v.C)
	}
	f := fn("equal?")
	l := list.New(cs...)
	r, _, failed := hv.Call(func() cell.I { return f(l) })
	if n < 2 {
		sx.Assert(failed, "equal? accepted too few values")
		return
	}
	sx.Assert(!failed, "equal? raised an error")
	want := true
	for i := 1; i < n; i++ {
		want = want && hv.Same(vs[i-1], vs[i])
	}
	truth(r, want, "equal?")
	for _, v := range vs {
		sx.Assert(hv.Kept(v), "equal? changed a value")
	}
	i := 0
	for c := l; c != pair.Null; c = pair.Cdr(c) {
		sx.Assert(pair.Car(c) == cs[i], "equal? changed its argument list")
		i++
	}
	sx.Reach("chain")
}

// truth asserts that r is the canonical answer.
func truth(r cell.I, want bool, what string) {
	if want {
		sx.Assert(r == sym.True, what+": expected the canonical true")
	} else {
		sx.Assert(r == pair.Null, what+": expected the empty list")
	}
}

// Truth checks the truth value of every value.
func Truth() {
	v := hv.Gen("v", opt())
	want := hv.Truth(v)
	sx.Assert(boolean.Value(v.C) == want, "truth value is wrong")
	truth(fn("bool")(list.New(v.C)), want, "bool")
	truth(fn("not")(list.New(v.C)), !want, "not")
	truth(create.Bool(want), want, "create.Bool")
	sx.Assert(hv.Kept(v), "testing changed a value")
	sx.Assert(boolean.Value(sym.True) && !boolean.Value(pair.Null), "canonical truth values changed")
	for _, f := range []string{"bool", "not"} {
		for _, l := range []cell.I{pair.Null, list.New(v.C, v.C)} {
			_, _, failed := hv.Call(func() cell.I { return fn(f)(l) })
			sx.Assert(failed, f+" accepted the wrong number of arguments")
		}
	}
	if want {
		sx.Reach("true")
	} else {
		sx.Reach("false")
	}
}

// Predicates checks the type predicates and that every truth-valued command
// answers with true or the empty list only.
func Predicates() {
	v := hv.Gen("v", opt())
	want := map[string]bool{
		"chan?": v.K == hv.Chan, "cons?": v.K == hv.Pair || v.K == hv.Null, "null?": v.K == hv.Null, "number?": v.K == hv.Num,
		"object?": v.K == hv.Env || v.K == hv.Obj, "pipe?": false, "string?": v.K == hv.Str, "symbol?": v.K == hv.Sym,
	}
	var names []string
	for n := range commands.Functions() {
		if n[len(n)-1] == '?' || n == "match" || n == "bool" || n == "not" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		f := fn(n)
		if w, ok := want[n]; ok {
			truth(f(list.New(v.C)), w, n)
			sx.Reach("predicate")
			continue
		}
		if n == "match" && v.K != hv.Str && v.K != hv.Sym {
			continue
		}
		for _, l := range []cell.I{list.New(v.C), list.New(v.C, v.C)} {
			r, _, failed := hv.Call(func() cell.I { return f(l) })
			if !failed {
				sx.Assert(r == sym.True || r == pair.Null, n+" answers something other than true or the empty list")
				sx.Reach("other")
			}
		}
	}
}

func hvChan() cell.I { return hv.Make("chan", hv.Chan, hv.Opt{}).C }
