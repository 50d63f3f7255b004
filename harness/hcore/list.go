package hcore

import (
	"math/big"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/commands"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

func lm(name string) func(cell.I, cell.I) cell.I {
	f, ok := commands.ListMethods()[name]
	sx.Assert(ok, "no list method "+name)
	return f
}

// mk makes a list of n distinct cells; it returns the elements, the cells of
// the list and the list.
func mk(n int) (elems, cells []cell.I, l cell.I) {
	for i := 0; i < n; i++ {
		elems = append(elems, str.New("e"))
	}
	l = list.New(elems...)
	for c := l; c != pair.Null; c = pair.Cdr(c) {
		cells = append(cells, c)
	}
	sx.Assert(len(cells) == n, "list.New made a list of the wrong length")
	return
}

// same asserts that l holds exactly elems (by identity).
func same(l cell.I, elems []cell.I, what string) {
	i := 0
	for c := l; c != pair.Null; c = pair.Cdr(c) {
		sx.Assert(i < len(elems), what+": too many elements")
		sx.Assert(pair.Car(c) == elems[i], what+": wrong element")
		i++
	}
	sx.Assert(i == len(elems), what+": too few elements")
}

func kept(l cell.I, elems, cells []cell.I, what string) {
	same(l, elems, what+" changed its list")
	i := 0
	for c := l; c != pair.Null; c = pair.Cdr(c) {
		sx.Assert(c == cells[i], what+" changed the structure of its list")
		i++
	}
}

func apart(l cell.I, cells []cell.I, what string) {
	for c := l; c != pair.Null; c = pair.Cdr(c) {
		for _, d := range cells {
			sx.Assert(c != d, what+" shares structure with the original")
		}
	}
}

// index makes an arbitrary integer index: i is its value when it fits in 64
// bits (fits), c the cell.
func index(name string) (c cell.I, i int, fits bool) {
	switch sx.Choice(name+".form", 4) {
	case 0:
		i = sx.Int(name)
		return num.Int(i), i, true
	case 1:
		return sym.New("1"), 1, true
	case 2:
		return sym.New("-2"), -2, true
	}
	b := sx.Big(name + ".big")
	r := new(big.Rat).SetInt(b)
	sx.Assume(!b.IsInt64())
	return num.Rat(r), 0, false
}

// ListGet checks get.
func ListGet() {
	n := sx.Choice("len", sx.Param("n", 4)+1)
	elems, cells, l := mk(n)
	get := lm("get")
	dflt := str.New("default")
	var args cell.I = pair.Null
	i, fits := 0, true
	hasDflt := false
	if sx.Bool("index") {
		var c cell.I
		c, i, fits = index("i")
		args = list.New(c)
		if sx.Bool("default") {
			hasDflt = true
			args = list.New(c, dflt)
		}
	}
	r, _, failed := hv.Call(func() cell.I { return get(l, args) })
	kept(l, elems, cells, "get")
	var want cell.I
	if fits {
		for k := 0; k < n; k++ {
			if i == k || i == k-n {
				want = elems[k]
			}
		}
	}
	switch {
	case want != nil:
		sx.Assert(!failed, "get raised an error for an index in range")
		sx.Assert(r == want, "get gave the wrong element")
		sx.Reach("get")
	case hasDflt && fits:
		sx.Assert(!failed, "get raised an error in spite of a default")
		sx.Assert(r == dflt, "get did not give the default")
		sx.Reach("default")
	case hasDflt:
		sx.Assert(failed || r == dflt, "get gave an element for a huge index")
	default:
		sx.Assert(failed, "get gave a value for an index out of range")
		sx.Reach("range")
	}
}

// ListSlice checks slice.
func ListSlice() {
	n := sx.Choice("len", sx.Param("n", 4)+1)
	elems, cells, l := mk(n)
	f := lm("slice")
	cs, start, fs := index("start")
	args := list.New(cs)
	end, fe := 0, true
	if sx.Bool("end") {
		var ce cell.I
		ce, end, fe = index("end")
		args = list.New(cs, ce)
	}
	r, _, failed := hv.Call(func() cell.I { return f(l, args) })
	kept(l, elems, cells, "slice")
	if !fs || !fe {
		if !failed {
			apart(r, cells, "slice")
		}
		sx.Reach("huge")
		return
	}
	// The meaning, with the bounds as zero-based positions.
	if start < 0 {
		start += n
	}
	if start > n {
		start = n
	}
	if end > n {
		end = n
	}
	if end <= 0 {
		end += n
	}
	if start < 0 || end < 0 || end < start {
		sx.Assert(failed, "slice accepted bounds out of range")
		sx.Reach("bad bounds")
		return
	}
	sx.Assert(!failed, "slice rejected valid bounds")
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			if start == a && end == b {
				same(r, elems[a:b], "slice")
			}
		}
	}
	apart(r, cells, "slice")
	if n > 0 && r != pair.Null {
		// Later changes to either do not show in the other.
		pair.SetCar(r, pair.Null)
		kept(l, elems, cells, "changing a slice")
	}
	sx.Reach("slice")
}

// ListWhole checks length, head, tail, reverse and argument counts.
func ListWhole() {
	n := sx.Choice("len", sx.Param("n", 6)+1)
	elems, cells, l := mk(n)
	r := lm("length")(l, pair.Null)
	sx.Assert(num.Is(r) && num.To(r).Rat().Cmp(big.NewRat(int64(n), 1)) == 0, "length is wrong")
	r = lm("reverse")(l, pair.Null)
	var rev []cell.I
	for i := range elems {
		rev = append(rev, elems[n-1-i])
	}
	same(r, rev, "reverse")
	apart(r, cells, "reverse")
	kept(l, elems, cells, "reverse")
	if n > 0 {
		sx.Assert(lm("head")(l, pair.Null) == elems[0], "head is not the first element")
		t := lm("tail")(l, pair.Null)
		same(t, elems[1:], "tail")
		sx.Assert(n == 1 || t == cells[1], "tail is a copy")
		kept(l, elems, cells, "head or tail")
		sx.Reach("head")
	}
	for _, m := range []string{"length", "reverse"} {
		_, _, failed := hv.Call(func() cell.I { return lm(m)(l, list.New(l)) })
		sx.Assert(failed, m+" accepted an argument")
	}
	for _, bad := range []cell.I{pair.Null, list.New(num.Int(0), num.Int(0), num.Int(0))} {
		_, _, failed := hv.Call(func() cell.I { return lm("slice")(l, bad) })
		sx.Assert(failed, "slice accepted the wrong number of arguments")
	}
	for _, bad := range []cell.I{str.New("0"), pair.Null, num.New("1/2"), sym.New("x")} {
		for _, m := range []string{"slice", "get"} {
			_, _, failed := hv.Call(func() cell.I { return lm(m)(l, list.New(bad)) })
			sx.Assert(failed, m+" accepted an index that is not an integer")
		}
	}
	kept(l, elems, cells, "a failed operation")
	sx.Reach("whole")
}
