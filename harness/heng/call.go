package heng

import (
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Arguments checks how arguments are evaluated and bound.
func Arguments() {
	m := machine()
	syntax := sx.Choice("syntax", 2) == 1
	np := sx.Choice("params", sx.Param("params", 2)+1)
	rest := sx.Choice("rest", 2) == 1
	labels, hows := 0, 1 // How: as a command, argument, method of an object it is written in or not.
	if sx.Param("plain", 0) == 0 {
		labels, hows = sx.Choice("labels", 4), 4
	}
	self, env := labels&1 != 0, labels&2 != 0
	how := sx.Choice("how", hows)
	na := sx.Choice("args", sx.Param("args", 3)+1)

	// The call.
	var order []int
	var results []cell.I
	m.def("arg", native(func(t *task.T) task.Op {
		i, _ := strconv.Atoi(common.String(pair.Car(t.Code())))
		order = append(order, i)
		results = append(results, value())
		return t.Return(results[len(results)-1])
	}))
	var code, want []cell.I // the arguments as written and as they should arrive
	var evaluated []int     // the arguments that are commands
	at := []int{}           // where their values go in want
	for i := 0; i < na; i++ {
		var c cell.I
		switch sx.Choice("arg", 5) {
		case 0:
			c = str.New(sx.Str("text", 1))
			want = append(want, c)
		case 1:
			c = symbol("word")
			want = append(want, c)
		case 2:
			c = list.New(symbol("arg"), number(i))
			evaluated = append(evaluated, i)
			at = append(at, len(want))
			want = append(want, nil)
		case 3:
			n := sx.Choice("spliced", 3)
			var vs []cell.I
			for j := 0; j < n; j++ {
				vs = append(vs, value())
			}
			m.def("list"+strconv.Itoa(i), list.New(vs...))
			c = list.New(symbol("splice"), list.New(symbol("resolve"), symbol("list"+strconv.Itoa(i))))
			want = append(want, vs...)
		case 4:
			// A command nested in an argument.
			c = list.New(symbol("block"), list.New(symbol("define"), symbol("x"), number(7)), list.New(symbol("arg"), number(i)))
			evaluated = append(evaluated, i)
			at = append(at, len(want))
			want = append(want, nil)
		}
		code = append(code, c)
	}
	if syntax {
		want, evaluated = code, nil
	}

	// The callee.
	names := []string{} // the names of the parameters: any different ones
	for i := 0; i < np+1; i++ {
		n := name("name")
		for _, o := range names {
			sx.Assume(n != o)
		}
		names = append(names, n)
	}
	names, last := names[:np], names[np]
	params := []cell.I{}
	for _, n := range names {
		params = append(params, symbol(n))
	}
	if rest {
		params = append(params, list.New(symbol(last)))
	}
	ran := 0
	var got []cell.I
	var gotSelf, gotEnv cell.I
	m.def("body", native(func(t *task.T) task.Op {
		ran++
		for _, n := range names {
			got = append(got, t.CellValue(n))
		}
		if rest {
			got = append(got, pairs(t.CellValue(last))...)
		}
		gotSelf, gotEnv = t.CellValue("self"), t.CellValue("env")
		sx.Assert(common.String(t.CellValue("x")) == "2", "a method does not see its own variables")
		return t.Return(value())
	}))
	def := []cell.I{symbol("method")}
	if syntax {
		def[0] = symbol("syntax")
	}
	if self {
		def = append(def, symbol("self"))
	}
	def = append(def, list.New(params...))
	if env {
		def = append(def, symbol("env"))
	}
	def = append(def, list.New(symbol("define"), symbol("x"), number(2)), list.New(symbol("body")))
	var call []cell.I
	var o cell.I
	if how < 2 {
		m.cmd(symbol("define"), symbol("f"), list.New(def...))
		call = append([]cell.I{symbol("f")}, code...)
	}
	if how > 1 {
		if how == 3 {
			m.cmd(symbol("define"), symbol("g"), list.New(def...))
			def = []cell.I{symbol("resolve"), symbol("g")}
		}
		r, msg, bad := m.cmd(symbol("object"), list.New(symbol("export"), symbol("f"), list.New(def...)))
		sx.Assert(!bad, "no object: "+msg)
		o = r
		m.def("o", o)
		call = append([]cell.I{symbol("o"), symbol("f")}, code...)
	}

	// Run it in a scope of its own.
	after := 0
	m.def("after", native(func(t *task.T) task.Op {
		after++
		sx.Assert(common.String(t.CellValue("x")) == "1", "a call changes the variables of its caller")
		sx.Assert(common.String(t.CellValue("loc")) == "3", "a call loses the scope of its caller")
		return t.Return(t.CellValue("loc"))
	}))
	inner := list.New(call...)
	if how == 1 {
		inner = list.New(symbol("list"), number(1), inner, list.New(symbol("after")))
	}
	_, _, bad := m.cmd(symbol("block"), list.New(symbol("define"), symbol("x"), number(1)), list.New(symbol("define"), symbol("loc"), number(3)),
		inner, list.New(symbol("after")))

	sx.Assert(len(order) == len(evaluated), "an argument is not evaluated exactly once")
	for i := range order {
		sx.Assert(order[i] == evaluated[i], "arguments are evaluated out of order")
		want[at[i]] = results[i]
	}
	fits := len(want) == np || rest && len(want) >= np
	sx.Assert(bad == !fits, "the wrong number of arguments is accepted, or the right one is not")
	if bad {
		sx.Assert(ran == 0, "a method with the wrong number of arguments runs")
		sx.Assert(after == 0, "an error does not end the command")
		sx.Reach("error")
		return
	}
	sx.Assert(ran == 1, "a call does not run the method once")
	sx.Assert(len(got) == len(want), "a call loses or adds an argument")
	for i := range got {
		sx.Assert(got[i] == want[i], "a parameter has another value than its argument")
	}
	if self {
		sx.Assert(gotSelf != nil, "self is not bound")
		if how > 1 {
			sx.Assert(gotSelf == o, "self is not the object")
			sx.Reach("self")
		}
	}
	if env {
		sx.Assert(gotEnv != nil, "the calling environment is not bound")
		m.def("genv", gotEnv)
		sx.Assert(common.String(m.must("genv get loc\n")) == "3", "the calling environment is another one")
		sx.Assert(common.String(m.must("genv get x\n")) == "1", "the calling environment is another one")
		sx.Reach("environment")
	}
	if how == 1 {
		sx.Assert(after == 2, "evaluation does not continue after a call")
	} else {
		sx.Assert(after == 1, "evaluation does not continue after a call")
	}
	sx.Reach("call")
}

// Returns checks that return leaves exactly its call, with its value.
func Returns() {
	m := machine()
	var log []string
	m.def("p", native(func(t *task.T) task.Op {
		log = append(log, common.String(pair.Car(t.Code()))+common.String(t.CellValue("x")))
		return t.Return(symbol("p"))
	}))
	val := value()
	m.def("val", val)
	m.def("yes", native(func(t *task.T) task.Op {
		n := sx.Rat("yes")
		sx.Assume(n.Sign() != 0)
		return t.Return(num.Rat(n))
	}))
	m.def("no", native(func(t *task.T) task.Op {
		n := sx.Rat("no")
		sx.Assume(n.Sign() == 0)
		return t.Return(num.Rat(n))
	}))
	// Where in the method the return is: what runs before it, and what it is
	// in. No p after it, marked with n, may run.
	nests := []string{
		"%",
		"block {\n p a\n %\n p n\n}",
		"if (yes) {\n p a\n %\n p n\n} else {\n p n\n}",
		"if (no) {\n p n\n} else {\n %\n p n\n}",
		"if (no) {\n p n\n} else if (list 1) {\n p a\n %\n p n\n}",
		"while (p a) {\n p b\n %\n p n\n}",
		"list (p a) (%) (p n)",
		"if (%) {\n p n\n} else {\n p n\n}",
		"while (%) {\n p n\n}",
		"and (p a) (%) (p n)",
		"or (no) (%) (p n)",
		"define y: %",
		"set x (%)",
		"here (%) (p n)",
		"other (p n)",
		"quiet {\n %\n}",
		"(%) x",
	}
	before := []string{"", "a", "a", "", "a", "ab", "a", "", "", "a", "", "", "", "", "", "", ""}
	rets := []string{"return $val", "ret $val", "deep", "return (list $val (p c))", "return"}
	nest := func(label string) (string, string) {
		n := sx.Choice(label, len(nests))
		sx.Assume(n != 14)
		return nests[n], before[n]
	}
	outer, b1 := nest("outer")
	inner, b2 := "%", ""
	if sx.Param("depth", 1) > 1 {
		inner, b2 = nest("inner")
		sx.Assume(outer != "%")
	}
	r := sx.Choice("ret", len(rets))
	form := strings.Replace(inner, "%", rets[r], 1)
	// A nested form inside brackets cannot span lines as a block can.
	if strings.Contains(inner, "\n") && (strings.Contains(outer, "(%)") || strings.Contains(outer, ": %")) {
		form = "block {\n" + form + "\n}"
		if strings.Contains(outer, ": %") {
			outer = strings.Replace(outer, ": %", " (%)", 1)
		}
	} else if strings.Contains(outer, ": %") {
		outer = strings.Replace(outer, ": %", " (%)", 1)
	}
	body := strings.Replace(outer, "%", form, 1)
	src := "define x 0\n" +
		"define here: method (a b) {\n p n\n}\n" +
		"define quiet: syntax ((body)) e {\n e eval (cons block $body)\n}\n" +
		"define f: method (a) {\n define x 1\n define ret $return\n define deep: method () {\n  define x 2\n  p d\n  ret $val\n  p n\n }\n" +
		" p s\n " + strings.ReplaceAll(body, "\n", "\n ") + "\n p n\n}\n" +
		"define g: method () {\n define x 5\n define result (f 1)\n p g\n return $result\n p n\n}\n"
	m.must(src)
	res, msg, bad := m.eval("block {\n define x 6\n p 1\n set x (list (g))\n}\n")
	sx.Assert(!bad, "an error: "+msg)
	m.must("p 2\n")
	wanted := []string{"16", "s1"}
	for _, c := range b1 + b2 {
		wanted = append(wanted, string(c)+"1")
	}
	switch r {
	case 2:
		wanted = append(wanted, "d2")
	case 3:
		wanted = append(wanted, "c1")
	}
	wanted = append(wanted, "g5", "20")
	sx.Assert(strings.Join(log, " ") == strings.Join(wanted, " "), "return does not leave exactly its call: "+strings.Join(log, " ")+" for "+strings.Join(wanted, " "))
	v := pair.Car(res)
	switch r {
	case 3:
		sx.Assert(pair.Is(v) && pair.Car(v) == val, "return yields another value")
	case 4:
		sx.Assert(v == pair.Null, "return yields a value it was not given")
	default:
		sx.Assert(v == val, "return yields another value")
	}
	sx.Reach("return")
}
