package hcore

import (
	"math/big"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/commands"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

func sf(name string) func(cell.I) cell.I {
	f, ok := commands.StringFunctions()[name]
	sx.Assert(ok, "no string function "+name)
	return f
}

// text makes a string or symbol holding n arbitrary bytes.
func text(name string, n int) (cell.I, string) {
	s := sx.Str(name, n)
	if sx.Bool(name + ".str") {
		return str.New(s), s
	}
	return sym.New(s), s
}

// longText makes a string holding n arbitrary bytes.
func longText(name string, n int) (cell.I, string) {
	s := sx.Str(name, n)
	return str.New(s), s
}

func isStr(c cell.I, want string, what string) {
	sx.Assert(str.Is(c), what+" did not give a string")
	got := str.To(c).String()
	sx.Assert(got == want, what+" gave the wrong text")
}

// StrSlice checks length and slice.
func StrSlice() {
	n := sx.Choice("len", sx.Param("n", 4)+1)
	c, s := longText("s", n)
	r := sf("length")(list.New(c))
	sx.Assert(num.Is(r) && num.To(r).Rat().Cmp(big.NewRat(int64(n), 1)) == 0, "length is wrong")
	cs, start, fs := index("start")
	args := list.New(c, cs)
	end, fe := n, true
	if sx.Bool("end") {
		var ce cell.I
		ce, end, fe = index("end")
		args = list.New(c, cs, ce)
	}
	r, _, failed := hv.Call(func() cell.I { return sf("slice")(args) })
	sx.Assert(str.To(c).String() == s, "slice changed its string")
	if !fs || !fe {
		sx.Reach("huge")
		return
	}
	if start > n {
		start = n
	}
	if end > n {
		end = n
	}
	if end < 0 {
		end += n
	}
	if start < 0 || end < start {
		sx.Assert(failed, "slice accepted impossible bounds")
		sx.Reach("bad bounds")
		return
	}
	sx.Assert(!failed, "slice rejected possible bounds")
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			if start == a && end == b {
				isStr(r, s[a:b], "slice")
			}
		}
	}
	sx.Reach("slice")
}

// StrTrim checks trim-prefix and trim-suffix.
func StrTrim() {
	n, m := sx.Choice("len", sx.Param("n", 4)+1), sx.Choice("trim", sx.Param("m", 2)+1)
	c, s := longText("s", n)
	d, t := longText("t", m)
	pre, suf := s, s
	if m <= n {
		if s[:m] == t {
			pre = s[m:]
			sx.Reach("prefix")
		}
		if s[n-m:] == t {
			suf = s[:n-m]
			sx.Reach("suffix")
		}
	}
	isStr(sf("trim-prefix")(list.New(c, d)), pre, "trim-prefix")
	isStr(sf("trim-suffix")(list.New(c, d)), suf, "trim-suffix")
	sx.Assert(str.To(c).String() == s, "trimming changed its string")
}

// replaced is replacement as it is meant to be: left to right, at most k
// times, never inside a replacement.
func replaced(s, old, repl string, k int) string {
	out := ""
	for i := 0; i < len(s); {
		if k != 0 && i+len(old) <= len(s) && s[i:i+len(old)] == old {
			out += repl
			i += len(old)
			if k > 0 {
				k--
			}
			continue
		}
		out += s[i : i+1]
		i++
	}
	return out
}

// StrReplace checks replace.
func StrReplace() {
	n, m, l := sx.Choice("len", sx.Param("n", 4)+1), 1+sx.Choice("old", sx.Param("m", 2)), sx.Choice("new", 3)
	c, s := longText("s", n)
	d, old := longText("old", m)
	e, repl := longText("new", l)
	k := -1
	args := list.New(c, d, e)
	if sx.Bool("limit") {
		k = sx.Choice("limit.n", 4) - 1
		args = list.New(c, d, e, num.Int(k))
	}
	isStr(sf("replace")(args), replaced(s, old, repl, k), "replace")
	sx.Reach("replace")
}

// StrCase checks upper and lower.
func StrCase() {
	n := sx.Choice("len", sx.Param("n", 3)+1)
	c, s := text("s", n)
	for i := 0; i < n; i++ {
		sx.Assume(s[i] < 0x80)
	}
	up, lo := "", ""
	for i := 0; i < n; i++ {
		b := s[i]
		u, l := b, b
		if sx.And(b >= 'a', b <= 'z') {
			u = b - 32
		}
		if sx.And(b >= 'A', b <= 'Z') {
			l = b + 32
		}
		up += string([]byte{u})
		lo += string([]byte{l})
	}
	isStr(sf("upper")(list.New(c)), up, "upper")
	isStr(sf("lower")(list.New(c)), lo, "lower")
	for _, p := range [][3]string{{"éa", "ÉA", "éa"}, {"Я9", "Я9", "я9"}, {"ﬀ", "ﬀ", "ﬀ"}, {"Σς", "ΣΣ", "σς"}} {
		isStr(sf("upper")(list.New(str.New(p[0]))), p[1], "upper")
		isStr(sf("lower")(list.New(str.New(p[0]))), p[2], "lower")
	}
	sx.Reach("case")
}

// StrArgs checks the number of arguments of every string function.
func StrArgs() {
	min := map[string]int{"length": 1, "lower": 1, "upper": 1, "replace": 3, "slice": 2, "trim-prefix": 2, "trim-suffix": 2}
	max := map[string]int{"length": 1, "lower": 1, "upper": 1, "replace": 4, "slice": 3, "trim-prefix": 2, "trim-suffix": 2}
	ms := []string{"length", "lower", "upper", "replace", "slice", "trim-prefix", "trim-suffix"}
	m := ms[sx.Choice("fn", len(ms))]
	n := sx.Choice("n", 6)
	var cs []cell.I
	for i := 0; i < n; i++ {
		// Text that is also a number suits every parameter.
		cs = append(cs, sym.New("1"))
	}
	_, _, failed := hv.Call(func() cell.I { return sf(m)(list.New(cs...)) })
	sx.Assert(failed == (n < min[m] || n > max[m]), m+" takes the wrong number of arguments")
	if n >= min[m] && n <= max[m] {
		cs[0] = pair.Cons(sym.New("a"), hvChan())
		_, _, failed = hv.Call(func() cell.I { return sf(m)(list.New(cs...)) })
		sx.Assert(failed, m+" accepted a value without text")
	}
	sx.Reach("args")
}

// SplitJoin checks that joining the pieces of a split restores the text.
func SplitJoin() {
	n, m := sx.Choice("len", sx.Param("n", 4)+1), 1+sx.Choice("sep", sx.Param("m", 2))
	c, s := text("s", n)
	d, sep := longText("sep", m)
	pieces := fn("rend")(list.New(d, c))
	if n == 0 {
		sx.Assert(list.Length(pieces) == 1, "splitting an empty text")
	}
	k := 0
	at := 0 // the pieces are the text between the leftmost separators
	for p := pieces; p != pair.Null; p = pair.Cdr(p) {
		t := pair.Car(p)
		sx.Assert(str.Is(t) == str.Is(c) && sym.Is(t) == sym.Is(c), "splitting changed the type")
		x := t.(interface{ String() string }).String()
		if k > 0 {
			sx.Assert(at+m <= n && s[at:at+m] == sep, "split away from a separator")
			at += m
		}
		sx.Assert(at+len(x) <= n && s[at:at+len(x)] == x, "a piece is not the text between separators")
		for i := 0; i+m <= len(x); i++ {
			sx.Assert(x[i:i+m] != sep, "a piece contains the separator")
		}
		at += len(x)
		k++
	}
	sx.Assert(at == n, "splitting lost the end of the text")
	if n >= m {
		r := fn("mend")(pair.Cons(d, pieces))
		sx.Assert(str.Is(r) == str.Is(c) && sym.Is(r) == sym.Is(c), "joining changed the type")
		sx.Assert(r.(interface{ String() string }).String() == s, "joining the pieces does not restore the text")
	}
	sx.Reach("split")
}

// Join checks mend on any mix of strings and symbols.
func Join() {
	n := 1 + sx.Choice("n", sx.Param("n", 3))
	d, sep := text("sep", sx.Choice("sep.len", 3))
	cs := []cell.I{d}
	want, anyStr := "", false
	for i := 0; i < n; i++ {
		l := sx.Choice("p.len", 2)
		var c cell.I
		s := sx.Str("p", l)
		if sx.Bool("p.str") {
			anyStr = true
			c = str.New(s)
		} else {
			c = sym.New(s)
		}
		if i > 0 {
			want += sep
		}
		want += s
		cs = append(cs, c)
	}
	r := fn("mend")(list.New(cs...))
	sx.Assert(str.Is(r) == anyStr, "the result of joining is a string exactly when some piece is")
	sx.Assert(sym.Is(r) == !anyStr, "the result of joining symbols is a symbol")
	sx.Assert(r.(interface{ String() string }).String() == want, "joining does not put the separator between the pieces")
	_, _, failed := hv.Call(func() cell.I { return fn("mend")(list.New(d)) })
	sx.Assert(failed, "joining nothing is accepted")
	sx.Reach("join")
}
