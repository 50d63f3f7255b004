package hmain

import (
	"os"

	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// zzRun runs the shell with arguments and returns its exit status.
func zzRun(args ...string) (code int, exited bool) {
	mos.Exited = false
	os.Args = append([]string{"/bin/oh"}, args...)
	func() {
		defer func() {
			if p := recover(); p != nil {
				e, ok := p.(mos.Exit)
				if !ok {
					panic(p)
				}
				code, exited = int(e), true
			}
		}()
		main()
	}()
	return
}

func zzText(label string, set int) string {
	cs := []string{"n", "a *$'(~\\{\"=-#;\n", "a =$"}[set]
	i := sx.Choice(label+".wide", 2)
	if i == 1 && set == 1 {
		return "é"
	}
	if i == 1 || set == 0 {
		return ""
	}
	c := sx.Str(label, 1)
	sx.Assume(sx.In(c[0], cs))
	return c
}

var zzStub = "define all: mend ':' $0 (splice $@)\nif (resolves? 1) {\nset all: mend '' $all '|' $1\n}\nwrite-line $all >> out\n"

// Arguments checks what a script, or a command, is told of how it was
// invoked.
func Arguments() {
	os.MkdirAll("/w", 0o755)
	os.Chdir("/w")
	args := []string{}
	all := ""
	n := sx.Choice("arguments", sx.Param("args", 2)+1)
	for i := 0; i < n; i++ {
		a := zzText("argument", sx.Param("texts", 1))
		switch sx.Choice("option", 3) {
		case 1:
			a = "-" + a
		case 2:
			a = "--command" + a
		}
		args = append(args, a)
		all += ":" + a
	}
	name := "/bin/oh"
	ran := []string{}
	switch sx.Choice("how", 3) {
	case 0:
		name = zzText("name", sx.Param("names", 1))
		sx.Assume(name != "-")
		name = sx.ConcreteStr(name) + ".oh"
		os.WriteFile(name, []byte(zzStub), 0o644)
		ran = []string{name}
		sx.Reach("script")
	case 1:
		sx.Assume(n == 0)
		ran = []string{"-c", zzStub}
		sx.Reach("command")
	case 2:
		name = zzText("name", sx.Param("names", 1))
		sx.Assume(name != "-")
		name += "n"
		ran = []string{"-c", zzStub, name}
		sx.Reach("named")
	}
	_, exited := zzRun(append(ran, args...)...)
	sx.Assert(!exited, "the shell does not run what it is told to")
	want := name + all
	if n > 0 {
		want += "|" + args[0]
		sx.Reach("arguments")
	}
	b, err := os.ReadFile("out")
	sx.Assert(err == nil, "what the shell is told to run does not run")
	sx.Assert(string(b) == want+"\n", "the arguments are "+string(b)+" and not "+want)
}

// Commands checks that every command of a script, or of a command given, is
// run in order, up to the first error, and none when the text is no command.
func Commands() {
	os.MkdirAll("/w", 0o755)
	os.Chdir("/w")
	out := ""
	text := ""
	code := -1
	over, bad := false, false
	word := func(cs string) string {
		c := sx.Str("text", 1)
		sx.Assume(sx.In(c[0], cs))
		return c
	}
	script := sx.Choice("script", 2) == 1
	n := 1 + sx.Choice("commands", sx.Param("n", 2))
	for i := 0; i < n; i++ {
		log := ""
		kind := 0
		if few := []int{0, 3, 4, 5, 6, 8}; i+1 < n && sx.Param("few", 0) > 0 {
			kind = few[sx.Choice("few", len(few))]
		} else {
			kind = sx.Choice("command", sx.Param("kinds", 11))
		}
		switch kind {
		case 0:
			c := word("ab")
			text += "write-line " + c + " >> out"
			log = c + "\n"
		case 1:
			c := word("a #;}'"[:5])
			text += "write-line '" + c + "' >> out"
			log = c + "\n"
		case 2:
			text += "write-line 'a\nb' >> out"
			log = "a\nb\n"
		case 3:
			text += "if true {\nwrite-line c >> out\n\n    write-line d >> out\n}"
			log = "c\nd\n"
		case 4:
			text += "car 1"
			if !over {
				over = true
				sx.Reach("error")
			}
		case 5:
			text += "exit 7"
			if !over {
				over = true
				code = 7
				sx.Reach("exit")
			}
		case 6:
			text += "write-line )"
			bad = true
			sx.Reach("syntax")
		case 7:
			text += "write-line \\\ne >> out"
			log = "e\n"
		case 8:
			text += "# write-line f {"
		case 9:
			text += "write-line g >> out # (\n\n"
			log = "g\n"
		case 10:
			text += "write-line h >> out; write-line i >> out"
			log = "h\ni\n"
		}
		if !over {
			out += log
		}
		if i+1 < n {
			text += "\n"
			continue
		}
		end := sx.Choice("end", 3)
		if end == 1 && !script {
			end = 3
		}
		switch end {
		case 1:
			text += "\n"
		case 3:
			text += "\n'x"
			bad = bad || !script
			sx.Reach("quoted")
		case 2:
			// More is needed.
			text += "\nwhile true {\n"
			bad = bad || !script
			sx.Reach("open")
		}
	}
	var got int
	var exited bool
	if script {
		os.WriteFile("s", []byte(text), 0o644)
		got, exited = zzRun("s")
		if bad {
			// All of a script is read before any of it is run.
			out = ""
			code = -1
		}
	} else {
		got, exited = zzRun("-c", text)
		if bad {
			// Nothing is run.
			out = ""
			code = 1
		}
	}
	if code == -1 {
		sx.Assert(!exited, "the shell exits too early")
	} else {
		sx.Assert(exited && got == code, "the shell does not exit with the right status")
	}
	b, _ := os.ReadFile("out")
	sx.Assert(string(b) == out, "what is run is "+string(b)+" and not "+out)
	sx.Reach("run")
}
