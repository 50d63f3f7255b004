package hread

import (
	"strconv"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// The characters of words. Others are words of their own.
const nameChars = "!%*+-0123456789?ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_abcdefghijklmnopqrstuvwxyz"

var numerals = []string{"0", "-1", "1/3", "-22/7", "18446744073709551616"}

// datum makes an arbitrary value built from data.
func datum(depth, n int) *hv.V {
	k := []int{hv.Null, hv.Str, hv.Sym, hv.Num, hv.Status, hv.Pair}
	if depth == 0 {
		k = k[:5]
	}
	if sx.Param("shape", 0) > 0 {
		// Structure rather than contents.
		k, n = []int{hv.Null, hv.Str, hv.Pair}, 0
		if depth == 0 {
			k = k[:2]
		}
	}
	v := &hv.V{K: k[sx.Choice("kind", len(k))]}
	switch v.K {
	case hv.Null:
		v.C = pair.Null
	case hv.Str:
		v.S = sx.Str("str", sx.Choice("length", n+1))
		v.C = str.New(v.S)
	case hv.Sym:
		v.S = sx.Str("sym", sx.Choice("length", n+1))
		for i := 0; i < len(v.S); i++ {
			sx.Assume(!sx.In(v.S[i], "\"#$&();<>`{|},./:=@~"))
		}
		v.C = sym.New(v.S)
	case hv.Num:
		v.C = num.New(numerals[sx.Choice("number", len(numerals))])
		v.R = num.To(v.C).Rat()
	case hv.Status:
		v.C = status.New(numerals[sx.Choice("number", len(numerals))])
		v.R = status.To(v.C).Rat()
	case hv.Pair:
		v.Car = datum(depth-1, n)
		v.Cdr = datum(depth-1, n)
		v.C = pair.Cons(v.Car.C, v.Cdr.C)
	}
	return v
}

// Literals checks that data printed in literal form reads back as itself.
func Literals() {
	v := datum(sx.Param("depth", 1), sx.Param("n", 2))
	l := literal.String(v.C)
	cs, err := commands(l + "\n")
	sx.Assert(err == nil, "the literal form of a value cannot be read")
	sx.Assert(len(cs) == 1, "the literal form of a value reads as "+strconv.Itoa(len(cs))+" commands")
	c := cs[0]
	if v.K != hv.Pair || !proper(v) {
		// All but a list is the only element of a command.
		sx.Assert(c != pair.Null && pair.Is(c) && pair.Cdr(c) == pair.Null, "the literal form of a value reads as several")
		c = pair.Car(c)
		sx.Reach("value")
	} else {
		sx.Reach("list")
	}
	sx.Assert(hv.Means(c, v), "a value printed in literal form reads back as another")
	sx.Assert(hv.Kept(v), "printing a value changes it")
}

// Joined checks the same for symbols that are written as several words.
func Joined() {
	s := sx.Str("sym", sx.Choice("length", sx.Param("n", 2)-1)+2)
	some := false
	for i := 0; i < len(s); i++ {
		sx.Assume(sx.In(s[i], nameChars+",./:=@~"))
		some = sx.Or(some, sx.In(s[i], ",./:=@~"))
	}
	sx.Assume(some)
	sx.Reach("joined")
	cs, err := commands("a " + literal.String(sym.New(s)) + "\n")
	sx.Assert(err == nil && len(cs) == 1, "the literal form of a symbol cannot be read")
	c := pair.Cadr(cs[0])
	sx.Assert(sym.Is(c) && sym.To(c).String() == s, "the literal form of a symbol with one of ,./:=@~ in it reads as a command that makes it")
}

func proper(v *hv.V) bool {
	for v.K == hv.Pair {
		v = v.Cdr
	}
	return v.K == hv.Null
}

// Reread checks that the literal form of a command reads back as the command.
func Reread() {
	wraps := [][2]string{{"", ""}, {"a ", " a"}, {"a (|cons ", "|)"}, {"a (|cons (|cons b c|) ", "|)"}, {"a {\n", "\n}"}, {"(a ", ") a"}}
	w := wraps[sx.Param("wrap", 0)]
	s := text(sx.Param("n", 3))
	s = w[0] + s[:len(s)-1] + w[1] + "\n"
	cs, _ := commands(s)
	for _, c := range cs {
		l := literal.String(c)
		ds, err := commands(l + "\n")
		sx.Assert(err == nil, "the literal form of a command cannot be read")
		sx.Assert(len(ds) == 1, "the literal form of a command reads as "+strconv.Itoa(len(ds))+" commands")
		sx.Assert(like(c, ds[0]), "the literal form of a command reads as another command")
		sx.Reach("command")
	}
}

func like(a, b cell.I) bool {
	switch {
	case num.Is(a):
		return num.Is(b) && num.To(a).Rat().Cmp(num.To(b).Rat()) == 0
	case status.Is(a):
		return status.Is(b) && status.To(a).Rat().Cmp(status.To(b).Rat()) == 0
	case a != pair.Null && pair.Is(a):
		return b != pair.Null && pair.Is(b) && like(pair.Car(a), pair.Car(b)) && like(pair.Cdr(a), pair.Cdr(b))
	}
	return same(a, b)
}
