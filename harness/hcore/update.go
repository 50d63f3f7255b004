package hcore

import (
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// cellsOf gives the cells of a list.
func cellsOf(l cell.I, max int, what string) []cell.I {
	var cs []cell.I
	for c := l; c != pair.Null; c = pair.Cdr(c) {
		sx.Assert(len(cs) < max, what+" made a list without end")
		cs = append(cs, c)
	}
	return cs
}

func cat(a, b []cell.I) []cell.I { return append(append([]cell.I(nil), a...), b...) }

// nullKept asserts that the empty list still is one.
func nullKept(what string) {
	sx.Assert(pair.Car(pair.Null) == pair.Null && pair.Cdr(pair.Null) == pair.Null, what+" changed the empty list")
}

// ListAppend checks append, on a list and through a second reference into it.
func ListAppend() {
	n := sx.Choice("len", sx.Param("n", 4)+1)
	elems, cells, l := mk(n)
	at := 0
	if n > 0 {
		at = sx.Choice("at", n)
	}
	on := l
	if n > 0 {
		on = cells[at]
	}
	var x cell.I
	switch sx.Choice("elem", 4) {
	case 0:
		x = str.New("x")
	case 1:
		x = pair.Null
	case 2:
		x = list.New(str.New("y"), str.New("z"))
	case 3:
		x = l
	}
	args := list.New(x)
	r := lm("append")(on, args)
	cs := cellsOf(r, n+1, "append")
	want := cat(elems[min(at, n):], []cell.I{x})
	same(r, want, "append")
	nullKept("append")
	if n > 0 {
		sx.Assert(r == on, "append did not answer with its list")
		// Every reference sees the update.
		same(l, cat(elems, []cell.I{x}), "append, seen through another reference")
		for i, c := range cellsOf(l, n+1, "append")[:n] {
			sx.Assert(c == cells[i], "append replaced a cell of the list")
		}
	}
	for _, c := range cs[len(cs)-1:] {
		sx.Assert(c != args, "append used the caller's argument list")
	}
	sx.Reach("append")
	// The wrong number of arguments changes nothing.
	for _, bad := range []cell.I{pair.Null, list.New(x, x)} {
		_, _, failed := hv.Call(func() cell.I { return lm("append")(on, bad) })
		sx.Assert(failed, "append accepted the wrong number of arguments")
		same(r, want, "a failed append")
	}
}

// ListExtend checks extend with another list, an empty list and any part of
// the list itself.
func ListExtend() {
	n := sx.Choice("len", sx.Param("n", 3)+1)
	m := sx.Choice("arg", sx.Param("n", 3)+1)
	elems, cells, l := mk(n)
	other, ocells, o := mk(m)
	self := false
	if n > 0 && m == 0 {
		// Extend by (a tail of) the list itself, or by nothing.
		k := sx.Choice("self", n+1)
		if k < n {
			self = true
			o, other = cells[k], elems[k:]
		}
	}
	at := 0
	on := l
	if n > 0 {
		at = sx.Choice("at", n)
		on = cells[at]
	}
	r, _, failed := hv.Call(func() cell.I { return lm("extend")(on, list.New(o)) })
	sx.Assert(!failed, "extend raised an error")
	cs := cellsOf(r, n+n+m, "extend")
	same(r, cat(elems[min(at, n):], other), "extend")
	nullKept("extend")
	if n == 0 {
		sx.Reach("empty")
		return
	}
	sx.Assert(r == on, "extend did not answer with its list")
	same(l, cat(elems, other), "extend, seen through another reference")
	for i, c := range cellsOf(l, n+n+m, "extend")[:n] {
		sx.Assert(c == cells[i], "extend replaced a cell of the list")
	}
	if !self {
		kept(o, other, ocells, "extend")
		apart(r, ocells, "extend")
		// Later changes to either structure do not show in the other.
		if m > 0 {
			pair.SetCar(ocells[0], pair.Null)
			pair.SetCdr(ocells[m-1], list.New(str.New("late")))
			same(r, cat(elems[at:], other), "changing the argument of extend later")
		}
		sx.Reach("extend")
	} else {
		for i, c := range cs {
			for _, d := range cs[i+1:] {
				sx.Assert(c != d, "extend shares a cell")
			}
		}
		sx.Reach("self")
	}
}

// ListSet checks set-head and set-tail.
func ListSet() {
	n := 1 + sx.Choice("len", sx.Param("n", 4))
	elems, cells, l := mk(n)
	at := sx.Choice("at", n)
	_, vcells, v := mk(sx.Choice("value", 3))
	if sx.Bool("plain") {
		v = str.New("v")
	}
	velems := []cell.I{}
	for _, c := range vcells {
		velems = append(velems, pair.Car(c))
	}
	if sx.Bool("head") {
		r := lm("set-head")(cells[at], list.New(v))
		sx.Assert(r == v, "set-head did not answer with the value")
		for i, c := range cells {
			if i == at {
				sx.Assert(pair.Car(c) == v, "set-head did not set the head")
			} else {
				sx.Assert(pair.Car(c) == elems[i], "set-head changed another cell")
			}
			if i+1 < n {
				sx.Assert(pair.Cdr(c) == cells[i+1], "set-head changed a tail")
			} else {
				sx.Assert(pair.Cdr(c) == pair.Null, "set-head changed a tail")
			}
		}
		sx.Assert(lm("get")(l, list.New(numInt(at))) == v, "set-head is not seen through another reference")
		sx.Reach("head")
	} else {
		r := lm("set-tail")(cells[at], list.New(v))
		sx.Assert(r == v, "set-tail did not answer with the value")
		for i, c := range cells {
			sx.Assert(pair.Car(c) == elems[i], "set-tail changed a head")
			switch {
			case i == at:
				sx.Assert(pair.Cdr(c) == v, "set-tail did not set the tail")
			case i+1 < n:
				sx.Assert(pair.Cdr(c) == cells[i+1], "set-tail changed another cell")
			default:
				sx.Assert(pair.Cdr(c) == pair.Null, "set-tail changed another cell")
			}
		}
		if pair.Is(v) {
			same(l, cat(elems[:at+1], velems), "set-tail, seen through another reference")
		}
		sx.Reach("tail")
	}
	nullKept("set-head or set-tail")
}

// ListEmpty checks that no update can change the empty list, which every
// list shares.
func ListEmpty() {
	ms := []string{"set-head", "set-tail", "append", "extend"}
	m := ms[sx.Choice("method", len(ms))]
	x := str.New("x")
	hv.Call(func() cell.I { return lm(m)(pair.Null, list.New(list.New(x))) })
	nullKept(m + " on the empty list")
	_, _, l := mk(2)
	sx.Assert(len(cellsOf(l, 2, m)) == 2, m+" on the empty list changed the end of lists")
	sx.Reach("empty")
}
