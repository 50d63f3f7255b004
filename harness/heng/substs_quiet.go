package heng

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Substs checks that a command and the commands put in place of its arguments
// exchange every line, and that nothing of that remains.
func Substs() {
	sx.Enter()
	m := machine()
	os.MkdirAll("/bin", 0o755)
	os.WriteFile("/bin/prog", nil, 0o755)
	os.WriteFile("/bin/rm", nil, 0o755)
	os.WriteFile("/bin/user", nil, 0o755)
	m.S.Export("PATH", str.New("/bin"))
	mos.PipeCap = sx.Param("cap", 3)
	ticks := 0
	m.def("tick", native(func(t *task.T) task.Op {
		ticks++
		return t.Return(pair.Null)
	}))
	n := 1 + sx.Choice("substitutions", sx.Param("substitutions", 2))
	got := make([][]string, n+1) // what commands read
	keep := func(i int, s string) { got[i] = append(got[i], s) }
	m.def("keep", native(func(t *task.T) task.Op {
		i, _ := strconv.Atoi(common.String(pair.Car(t.Code())))
		keep(i, common.String(pair.Car(pair.Cdr(t.Code()))))
		return t.Return(pair.Null)
	}))

	each, size := sx.Param("lines", 2), sx.Param("size", 1)
	kinds, failing := sx.Param("kinds", 2), sx.Param("failing", 2)
	lines := make([][]string, n)
	reads := make([]bool, n) // the command reads what the i-th writes
	fails := -1
	fail := func(i int) string {
		if failing > 1 && fails < 0 && sx.Choice("fails", failing) == 1 {
			fails = i
			return "throw bad" + strconv.Itoa(i) + "\n"
		}
		return ""
	}
	use := "user"
	progs := make([]bool, n+1)
	args, body := "", ""
	for i := 0; i < n; i++ {
		num := strconv.Itoa(i)
		for k := sx.Choice("count", each+1); k > 0; k-- {
			l := sx.Str("line", sx.Choice("size", size+1))
			sx.Assume(strings.IndexByte(l, '\n') < 0)
			m.def("l"+num+strconv.Itoa(len(lines[i])), str.New(l))
			lines[i] = append(lines[i], l)
		}
		reads[i] = sx.Choice("direction", 2) == 0
		progs[i] = sx.Choice("kind", kinds) == 1
		write := ""
		for k := range lines[i] {
			write += "write-line $l" + num + strconv.Itoa(k) + "\ntick\n"
		}
		read := "while (define l: read-line) {\nkeep " + num + " $l\ntick\n}\n"
		open := "define f: open "
		if reads[i] {
			args += " |<("
			body += open + "r $p" + num + "\nwhile (define l: f read-line) {\nkeep " + num + " $l\ntick\n}\nf close\n"
		} else {
			args += " |>("
			body += open + "w $p" + num + "\n" + strings.ReplaceAll(write, "write-line", "f write-line") + "f close\n"
			write = read
		}
		if progs[i] {
			args += "prog " + num + ")"
		} else {
			args += "sub" + num + ")"
			m.must("define sub" + num + ": method () {\ntick\n" + write + fail(i) + "tick\n}\n")
		}
	}
	params := ""
	for i := 0; i < n; i++ {
		params += " p" + strconv.Itoa(i)
	}
	status := 0
	if progs[n] = sx.Choice("kind", kinds) == 1; progs[n] {
		status = sx.Choice("status", 2)
	} else {
		use = "use"
		m.must("define use: method (" + params + " ) {\n" + body + fail(n) + "return done\n}\n")
	}
	mos.Program = func(p *mos.Proc) int {
		if p.Argv[0] == "rm" {
			for _, f := range p.Argv[1:] {
				os.Remove(f)
			}
			return 0
		}
		if p.Argv[0] == "user" {
			for i := 0; i < n; i++ {
				if reads[i] {
					f, err := os.Open(p.Argv[1+i])
					sx.Assert(err == nil, "an argument is no file")
					rest, b := "", make([]byte, 4)
					for {
						k, err := f.Read(b)
						rest += string(b[:k])
						if err != nil {
							break
						}
					}
					f.Close()
					for _, l := range strings.SplitAfter(rest, "\n") {
						if l != "" {
							keep(i, strings.TrimSuffix(l, "\n"))
						}
					}
				} else {
					f, err := os.OpenFile(p.Argv[1+i], os.O_WRONLY, 0)
					sx.Assert(err == nil, "an argument is no file")
					for _, l := range lines[i] {
						f.WriteString(l + "\n")
					}
					f.Close()
				}
			}
			return status
		}
		i, _ := strconv.Atoi(p.Argv[1])
		if reads[i] {
			for _, l := range lines[i] {
				p.Out(l + "\n")
			}
			return 0
		}
		rest := ""
		for s := p.In(); s != ""; s = p.In() {
			rest += s
		}
		for _, l := range strings.SplitAfter(rest, "\n") {
			if l != "" {
				keep(i, strings.TrimSuffix(l, "\n"))
			}
		}
		return 0
	}
	cmd := parse(use + args + "\n")[0]
	sx.Quiesce()
	blocked, open := sx.Blocked(), mos.Open()
	sx.Leave()
	r := m.start(cmd)
	was, seen := ticks, len(mos.Procs)
	sx.Enter()
	sx.Quiesce()
	sx.Assert(ticks == was, "a command goes on after the whole has ended")
	sx.Assert(len(mos.Procs) == seen, "a command is run after the whole has ended")
	sx.Assert(sx.Blocked() <= blocked, "a command is left behind")
	sx.Assert(mos.Open() == open, "a file stays open")
	left, _ := filepath.Glob(os.TempDir() + "/fifo-*")
	sx.Assert(len(left) == 0, "a file remains")

	for i := range lines {
		sx.Assert(len(got[i]) == len(lines[i]), "lines are lost or added")
		for k, l := range lines[i] {
			sx.Assert(got[i][k] == l, "a line differs")
		}
		if reads[i] {
			sx.Reach("read")
		} else {
			sx.Reach("written")
		}
	}
	msg, bad := failed(r)
	sx.Assert(bad == (fails >= 0), "an error is lost, or there is one: "+msg)
	if bad {
		sx.Assert(msg == "bad"+strconv.Itoa(fails), "another error is raised: "+msg)
		sx.Reach("error")
		return
	}
	if progs[n] {
		v, ok := integerOf(r)
		sx.Assert(ok && v == status, "the value is not that of the command")
		sx.Reach("status")
	} else {
		sx.Assert(common.String(r) == "done", "the value is not that of the command")
		sx.Reach("value")
	}
}
