package heng

import (
	"math/big"
	"os"
	"strconv"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

var kinds = []int{hv.Num, hv.Status, hv.Sym, hv.Str, hv.Null, hv.Pair, hv.Chan, hv.Env, hv.Obj}

func anyValue(label string) *hv.V {
	o := hv.Opt{Kinds: kinds, Len: sx.Param("len", 1), Depth: 1, Ident: 1}
	k := sx.Choice(label+".what", len(kinds)+2)
	if k < len(kinds) && kinds[k] == hv.Pair {
		o.Kinds = []int{hv.Null, hv.Str}
	}
	if k < len(kinds) {
		return hv.Make(label, kinds[k], o)
	}
	if k == len(kinds) {
		return hv.Make(label, hv.True, o)
	}
	// A method, true like everything that is no number, status or list.
	return &hv.V{K: hv.Chan, C: run("get list\n"), ID: 1}
}

// Conditionals checks that everything that tests a condition agrees on which
// values are true.
func Conditionals() {
	m := machine()
	v := anyValue("v")
	m.def("value", native(func(t *task.T) task.Op { return t.Return(v.C) }))
	ran := 0
	m.def("run", native(func(t *task.T) task.Op {
		ran++
		sx.Assert(ran < 10, "a condition does not take effect")
		return t.Return(sym.True)
	}))
	x := list.New(symbol("value"))
	y := list.New(symbol("run"))
	if sx.Choice("variable", 2) == 1 {
		m.def("x", v.C)
		x = list.New(symbol("resolve"), symbol("x"))
	}
	s := symbol
	var cmd cell.I
	want := hv.Truth(v)
	negated := false
	isCond := false
	var yields cell.I
	kind := sx.Choice("where", 14)
	f := func(cs ...cell.I) cell.I { return list.New(cs...) }
	switch kind {
	case 0:
		cmd = f(s("if"), x, y)
	case 1:
		cmd, negated = f(s("if"), x, f(s("list")), s("else"), y), true
	case 2:
		cmd = f(s("if"), pair.Null, f(s("list")), s("else"), s("if"), x, y)
	case 3:
		cmd, negated = f(s("if"), pair.Null, f(s("list")), s("else"), s("if"), x, f(s("list")), s("else"), y), true
	case 4:
		m.def("go", v.C)
		cmd = f(s("while"), f(s("resolve"), s("go")), y, f(s("set"), s("go"), pair.Null))
	case 5:
		cmd = f(s("and"), x, y)
		yields = v.C
		if want {
			yields = sym.True
		}
	case 6:
		cmd, negated = f(s("or"), x, y), true
		yields = v.C
		if !want {
			yields = sym.True
		}
	case 7:
		cmd = f(s("and"), f(s("or"), x), y)
	case 8:
		cmd, negated = f(s("or"), f(s("and"), x), y), true
	case 9:
		cmd, isCond, negated = f(s("not"), x), true, true
	case 10:
		cmd, isCond, negated = f(append([]cell.I{s("not:")}, pairs(x)...)...), true, true
	case 11:
		cmd, isCond = f(s("bool"), x), true
	case 12:
		cmd, isCond = f(s("not"), f(s("not"), x)), true
	case 13:
		cmd = f(s("if"), f(s("bool"), x), y)
	}
	r, msg, bad := m.cmd(pairs(cmd)...)
	sx.Assert(!bad, "a condition raised an error: "+msg)
	if isCond {
		sx.Assert(r == sym.True || r == pair.Null, "a truth value is neither true nor ()")
		sx.Assert((r == sym.True) == (want != negated), "a truth value is wrong")
	} else {
		sx.Assert((ran == 1) == (want != negated) && ran <= 1, "a condition selects the wrong commands")
		if yields != nil && v.C != sym.True && v.K != hv.Chan {
			sx.Assert(r == yields, "and or or yields another operand")
		}
	}
	sx.Assert(hv.Kept(v), "a condition changed a value")
	if want {
		sx.Reach("true")
	} else {
		sx.Reach("false")
	}
}

func pairs(c cell.I) (cs []cell.I) {
	for ; c != pair.Null; c = pair.Cdr(c) {
		cs = append(cs, pair.Car(c))
	}
	return
}

// Exits checks the exit status of the shell.
func Exits() {
	v := anyValue("v")
	code, given := 0, true
	if !hv.Truth(v) {
		code = 1
	}
	if v.K == hv.Num || v.K == hv.Status {
		if v.R.IsInt() && new(big.Int).Set(v.R.Num()).IsInt64() {
			code = int(v.R.Num().Int64())
			sx.Reach("integer")
		} else {
			sx.Reach("fraction")
		}
	} else if v.K == hv.Sym {
		// A symbol that spells an integer is one.
		if n := sx.Choice("digit", 11); n == 10 {
			if v.S != "true" {
				sx.Assume(len(v.S) == 0 || !sx.In(v.S[0], "0123456789"))
			}
		} else {
			v.C = sym.New(string(rune('0' + n)))
			code = n
		}
	}
	late := false
	global.Define("zz-late", native(func(t *task.T) task.Op {
		late = true
		return t.Return(pair.Null)
	}))
	global.Define("zz-value", v.C)
	e := "exit $zz-value"
	if v.K == hv.Null && sx.Choice("given", 2) == 1 {
		e, given, code = "exit", false, 0
	}
	contexts := []string{
		"%",
		"block {\n    %\n    zz-late\n}",
		"block {\n    define f: method () {\n        %\n        zz-late\n    }\n    list a (f) (zz-late)\n    zz-late\n}",
		"block {\n    while true {\n        if true {\n            %\n        } else {\n            list\n        }\n        zz-late\n    }\n}",
		"block {\n    define f: method () {\n        catch ex {\n            %\n            zz-late\n        }\n        throw x\n        zz-late\n    }\n    f\n    zz-late\n}",
		"block {\n    define f: method (x) {\n        zz-late\n    }\n    f (%)\n}",
		"if (and (%) (zz-late)) {\n    zz-late\n} else {\n    zz-late\n}",
	}
	at := 0
	if v.K != hv.Num || !given {
		at = sx.Choice("context", len(contexts))
	} else {
		at = 1 + sx.Choice("context", 2)
	}
	src := ""
	for i := 0; i < len(contexts[at]); i++ {
		if contexts[at][i] == '%' {
			src += e
		} else {
			src += contexts[at][i : i+1]
		}
	}
	cs := parse(src + "\n")
	sx.Assert(len(cs) == 1, "")
	sx.ExpectExit(code)
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(mos.Exit); !ok {
					panic(p)
				}
			}
		}()
		engine.Evaluate(theJob, cs[0])
	}()
	sx.Assert(mos.Exited, "the shell goes on after exit")
	sx.Assert(mos.ExitCode == code, "the shell exits with another status")
	sx.Assert(!late, "something runs after exit")
	sx.Reach("exit")
}

// Script checks that a script runs its commands in order up to an exit or to
// an error that nothing catches.
func Script() {
	var ran []int
	global.Define("zz-run", native(func(t *task.T) task.Op {
		i, _ := strconv.Atoi(common.String(pair.Car(t.Code())))
		ran = append(ran, i)
		return t.Return(pair.Null)
	}))
	ends := []string{"zz-run 50", "exit 3", "exit ()", "throw oops", "add 1 x", "(list a) get 7", "define f: method () {\n    exit 4\n}\nf", "resolve nosuch",
		"define g: method () {\n    throw (list)\n}\nlist (g)", "block {\n    catch ex {\n        throw $ex\n    }\n    add x\n}", "exit x y", "fatal 2"}
	n, at := sx.Choice("end", len(ends)), sx.Choice("at", 3)
	src := ""
	for i := 0; i < 3; i++ {
		src += "zz-run " + strconv.Itoa(i) + "\n"
		if i == at {
			src += ends[n] + "\n"
		}
	}
	if err := os.WriteFile("script.oh", []byte(src), 0o644); err != nil {
		panic(err.Error())
	}
	cs := parse("source script.oh\n")
	r, exited := engine.System(theJob, cs[0])
	want := []int{}
	for i := 0; i < 3; i++ {
		want = append(want, i)
		if i == at {
			if n > 0 {
				break
			}
			want = append(want, 50)
		}
	}
	sx.Assert(len(ran) == len(want), "a script stops too early or too late")
	for i := range want {
		sx.Assert(ran[i] == want[i], "a script runs its commands out of order")
	}
	sx.Assert(exited == (n == 1 || n == 2 || n == 6), "the shell exits when it should not, or does not when it should")
	if n == 1 {
		sx.Assert(common.String(r) == "3", "the exit value is lost")
		sx.Reach("exit")
	}
	if n > 2 && n != 6 {
		sx.Reach("error")
	}
	if n == 0 {
		sx.Reach("end")
	}
}
