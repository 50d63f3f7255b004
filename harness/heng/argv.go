package heng

import (
	"os"
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

func anyText(name string, n int) string {
	s := sx.Str(name, sx.Choice(name+".length", n+1))
	for i := 0; i < len(s); i++ {
		sx.Assume(s[i] != 0)
	}
	return s
}

// argument is one way to write an argument, with what a command gets for it.
// What a command gets is unknown when exact is false.
type argument struct {
	code  cell.I
	text  []string
	bad   bool
	exact bool
}

// wordArg is what a symbol written as s stands for.
func wordArg(s string) (out []string, bad, exact bool) {
	if strings.HasPrefix(s, "~") {
		if s == "~" {
			return []string{"/home"}, false, true
		}
		if s == "~/a" {
			return []string{"/home/a"}, false, true
		}
		return nil, false, false
	}
	if !magic(s) {
		return []string{s}, false, true
	}
	ns, ok := generated(s)
	return ns, !ok || len(ns) == 0, true
}

var wordSets = []string{"", "*?[a]d/.h\\", "~/a*x", "-=:@,% a\t"}

func (m *M) argument(k int, n int) argument {
	id := strconv.Itoa(k)
	name := "v" + id
	deref := list.New(symbol("resolve"), symbol(name))
	kinds := []string{"string", "word", "variable", "number", "splice", "value", "list", "command"}
	if sx.Param("kinds", 0) > 0 {
		kinds = kinds[:sx.Param("kinds", 0)]
	}
	kind := kinds[sx.Choice("kind"+id, len(kinds))]
	one := func(c cell.I, s string) argument { return argument{c, []string{s}, false, true} }
	switch kind {
	case "string":
		s := anyText("string"+id, n)
		return one(str.New(s), s)
	case "variable":
		s := anyText("held"+id, n)
		m.def(name, str.New(s))
		return one(deref, s)
	case "word", "value":
		s := ""
		if set := wordSets[sx.Param("set", 1)]; set == "" {
			s = anyText("word"+id, n)
			for i := 0; i < len(s); i++ {
				sx.Assume(!sx.In(s[i], "*?["))
			}
		} else {
			s = bounded("word"+id, n, set)
		}
		// Directories are taken as they are.
		sx.Assume(!strings.HasPrefix(s, "/") && !strings.HasSuffix(s, "/") && !strings.Contains(s, "//"))
		for i, q := range strings.Split(s, "/") {
			sx.Assume(q != "." && q != "..")
			sx.Assume(i == 0 || q != "")
		}
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			sx.Assume(!strings.Contains(s[:i], "\\"))
		}
		var a argument
		a.text, a.bad, a.exact = wordArg(s)
		a.code = sym.New(s)
		if kind == "value" {
			m.def(name, sym.New(s))
			a.code = deref
		} else if s == "" {
			// Only a value can be an empty symbol.
			sx.Assume(false)
		}
		return a
	case "number":
		switch sx.Choice("number"+id, 3) {
		case 0:
			m.def(name, num.New("-3/2"))
			return one(deref, "-3/2")
		case 1:
			m.def(name, status.Int(7))
			return one(deref, "7")
		}
		return one(pair.Cadr(parse("x 007\n")[0]), "007")
	case "splice":
		var cs []cell.I
		var out []string
		for i := 0; i < sx.Choice("elements"+id, 3); i++ {
			s := anyText("element"+id+strconv.Itoa(i), n)
			cs = append(cs, str.New(s))
			out = append(out, s)
		}
		m.def(name, list.New(cs...))
		return argument{list.New(symbol("splice"), deref), out, false, true}
	case "list":
		if sx.Choice("method"+id, 2) == 1 {
			// A method is no argument.
			m.def(name, native(nil))
			return argument{code: deref, bad: true, exact: true}
		}
		m.def(name, list.New(str.New("a"), str.New("b *")))
		return one(deref, text(list.New(str.New("a"), str.New("b *"))))
	case "command":
		s := anyText("made"+id, n)
		m.def(name, str.New(s))
		return one(list.New(symbol("mend"), str.New("*"), deref, str.New(" ~")), s+"* ~")
	}
	panic(kind)
}

// Argv checks the arguments that external commands get.
func Argv() {
	d, undo := files()
	defer undo()
	m := machine()
	m.S.Export("PWD", str.New(d))
	m.S.Export("HOME", str.New("/home"))
	m.S.Export("PATH", str.New("/bin"))
	os.MkdirAll("/bin", 0o755)
	os.WriteFile("/bin/prog", nil, 0o755)
	os.WriteFile("/bin/my *", nil, 0o755)
	mos.Program = func(p *mos.Proc) int { return 3 }

	var head cell.I
	prog := "prog"
	switch sx.Choice("program", 4) {
	case 0:
		head = symbol("prog")
	case 1:
		head, prog = str.New("my *"), "my *"
	case 2:
		head, prog = symbol("/bin/prog"), "/bin/prog"
	case 3:
		m.def("v", str.New("my *"))
		head, prog = list.New(symbol("resolve"), symbol("v")), "my *"
	}
	cmd := list.New(head)
	want := []string{prog}
	bad, exact := false, true
	for k := 0; k < sx.Param("args", 2); k++ {
		a := m.argument(k, sx.Param("n", 2))
		cmd = list.Append(cmd, a.code)
		want = append(want, a.text...)
		bad = bad || a.bad
		exact = exact && a.exact
	}
	r := m.start(cmd)
	_, failed := failed(r)
	if bad {
		sx.Assert(failed, "a command with an argument that stands for nothing is no error")
		sx.Assert(len(mos.Procs) == 0, "a command with an argument that stands for nothing is run")
		sx.Reach("error")
		return
	}
	if !exact && failed {
		sx.Assert(len(mos.Procs) == 0, "a command whose arguments are an error is run")
		return
	}
	sx.Assert(!failed, "running a command fails")
	sx.Assert(len(mos.Procs) == 1, "a command is not run exactly once")
	sx.Assert(status.Is(r) && text(r) == "3", "a command has the wrong status")
	got := mos.Procs[0].Argv
	if !exact {
		sx.Reach("tilde")
		return
	}
	sx.Reach("run")
	sx.Assert(len(got) == len(want), "the number of arguments is wrong")
	for i := range want {
		sx.Assert(got[i] == want[i], "an argument is changed")
	}
}
