package heng

import (
	"os"
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// A stage of a pipeline.
type stage struct {
	lines  []string // what it writes of its own
	reads  int      // whether it reads nothing, a line, or all lines
	echo   bool     // whether it writes what it reads
	fails  bool
	prog   bool
	got    []string // what a program read
	status int
}

const (
	readNone = iota
	readOne
	readAll
)

// source returns the command of a stage, defining what it needs.
func (x *stage) source(m *M, i int) string {
	num := strconv.Itoa(i)
	if x.prog {
		return "prog " + num
	}
	for k, l := range x.lines {
		m.def("l"+num+strconv.Itoa(k), str.New(l))
	}
	src := "define s" + num + ": method () {\ntick\ndefine s: cons () ()\ndefine r $s\n"
	for k := range x.lines {
		src += "write-line $l" + num + strconv.Itoa(k) + "\ntick\n"
	}
	body := "r set-tail (cons $l ())\nset r (r tail)\n"
	if x.echo {
		body += "write-line $l\n"
	}
	switch x.reads {
	case readOne:
		src += "define l: read-line\nif $l {\n" + body + "}\n"
	case readAll:
		src += "while (define l: read-line) {\n" + body + "tick\n}\n"
	}
	if x.fails {
		src += "throw bad" + num + "\n"
	}
	src += "tick\nreturn (s tail)\n}\n"
	m.must(src)
	return "s" + num
}

// run is what a program does.
func (x *stage) run(p *mos.Proc) int {
	for _, l := range x.lines {
		if !p.Out(l + "\n") {
			return 9
		}
	}
	rest := ""
	for x.reads != readNone {
		s := p.In()
		if s == "" {
			break
		}
		rest += s
		for {
			k := strings.IndexByte(rest, '\n')
			if k < 0 {
				break
			}
			l := rest[:k]
			rest = rest[k+1:]
			x.got = append(x.got, l)
			if x.echo && !p.Out(l+"\n") {
				return 9
			}
			if x.reads == readOne {
				return x.status
			}
		}
	}
	return x.status
}

// Pipes checks that pipelines and captures move every line and report every
// failure.
func Pipes() {
	sx.Enter()
	m := machine()
	os.MkdirAll("/bin", 0o755)
	os.WriteFile("/bin/prog", nil, 0o755)
	m.S.Export("PATH", str.New("/bin"))
	mos.PipeCap = sx.Param("cap", 3)
	ticks := 0
	m.def("tick", native(func(t *task.T) task.Op {
		ticks++
		return t.Return(pair.Null)
	}))

	n := 1 + sx.Choice("stages", sx.Param("stages", 2))
	capture := sx.Param("capture", 0) > 0 && (n == 1 || sx.Choice("capture", 2) == 1)
	sx.Assume(n > 1 || capture)
	each, size := sx.Param("lines", 2), sx.Param("size", 1)
	modes, kinds := sx.Param("modes", 3), sx.Param("kinds", 2)
	var xs []*stage
	var cmds []string
	broken := -1 // the last stage that stops reading early
	fails := false
	var flow []string // the lines that should come out
	for i := 0; i < n; i++ {
		x := &stage{}
		mode := sx.Choice("mode", modes)
		switch {
		case i == 0:
			for k := sx.Choice("count", each+1); k > 0; k-- {
				l := sx.Str("line", sx.Choice("size", size+1))
				sx.Assume(strings.IndexByte(l, '\n') < 0)
				x.lines = append(x.lines, l)
			}
			flow = x.lines
			x.fails = mode == 1
			sx.Assume(mode < 2)
		default:
			x.reads, x.echo = readAll, i < n-1 || capture
			x.fails = mode == 1
			if mode == 2 {
				x.reads = sx.Choice("reads", 2)
			}
			k := len(flow)
			if x.reads < readAll && k > x.reads {
				k = x.reads
			}
			if x.reads < readAll {
				broken = i
			}
			flow = flow[:k]
		}
		x.prog = !x.fails && sx.Choice("kind", kinds) == 1
		if x.prog && i == n-1 {
			x.status = sx.Choice("status", 2)
		}
		fails = fails || x.fails
		xs = append(xs, x)
		cmds = append(cmds, x.source(m, i))
	}
	mos.Program = func(p *mos.Proc) int {
		i, _ := strconv.Atoi(p.Argv[1])
		return xs[i].run(p)
	}
	src := strings.Join(cmds, " | ")
	if capture {
		src = "capture {\n" + src + "\n}"
	}
	cmd := parse(src + "\n")[0]
	sx.Quiesce()
	blocked := sx.Blocked()
	sx.Leave()
	r := m.start(cmd)
	was := ticks
	sx.Enter()
	sx.Quiesce()
	sx.Assert(ticks == was, "a stage goes on after the pipeline has ended")
	sx.Assert(sx.Blocked() <= blocked, "a stage is left behind")

	msg, bad := failed(r)
	switch {
	case bad && broken > 0 && strings.Contains(msg, "pipe"):
		// A stage may write what the next does not read.
		sx.Reach("broken")
		return
	case fails:
		sx.Assert(bad, "an error in a stage is not raised")
		ok := false
		for i, x := range xs {
			ok = ok || x.fails && msg == "bad"+strconv.Itoa(i)
		}
		sx.Assert(ok, "another error is raised: "+msg)
		sx.Reach("error")
		return
	}
	sx.Assert(!bad, "an error is raised: "+msg)

	last := xs[n-1]
	for _, x := range xs[1:] {
		if x.prog && x.reads == readAll {
			sx.Assert(x != last || len(x.got) == len(flow), "lines are lost or added")
			if x == last {
				for k := range flow {
					sx.Assert(x.got[k] == flow[k], "a line differs")
				}
				sx.Reach("program")
			}
		}
	}
	switch {
	case capture:
		isLines(r, flow)
		sx.Reach("captured")
	case last.prog:
		v, ok := integerOf(r)
		sx.Assert(ok && v == last.status, "the value of a pipeline is not that of its last stage")
		sx.Reach("status")
	default:
		isLines(r, flow)
		sx.Reach("lines")
	}
}

func isLines(r cell.I, flow []string) {
	for _, l := range flow {
		sx.Assert(r != pair.Null && pair.Is(r), "lines are lost")
		c := pair.Car(r)
		sx.Assert(str.Is(c) && str.To(c).String() == l, "a line differs")
		r = pair.Cdr(r)
	}
	sx.Assert(r == pair.Null, "lines are added")
}
