package heng

import (
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/scope"
	"github.com/michaelmacinnis/oh/internal/common/struct/frame"
	"github.com/michaelmacinnis/oh/internal/common/type/env"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/reader"
	"github.com/michaelmacinnis/oh/internal/system/job"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

var (
	global  scope.I  // the shell's global scope
	outer   scope.I  // the shell's environment
	base    *frame.T // the frame the shell evaluates commands in
	theJob  *job.T
	failure = str.New("(failure)")
)

// Setup boots the shell.
func Setup() {
	engine.Boot("", []string{"oh"})
	theJob = job.New(0)
	global = scope.To(run("define zz-here: syntax () e {\n    return $e\n}\nzz-here\n"))
	outer = scope.To(run("get sys\n")).Expose()
	errors := env.New(nil)
	errors.Export("throw", native(func(t *task.T) task.Op {
		t.ReplaceResult(list.New(failure, pair.Car(t.Code())))
		return nil
	}))
	base = frame.New(errors, frame.New(outer, nil))
}

// parse reads commands from src.
func parse(src string) []cell.I {
	rd := reader.New("test")
	var cs []cell.I
	for _, line := range strings.SplitAfter(src, "\n") {
		c, err := rd.Scan(line)
		if err != nil {
			panic(err.Error())
		}
		if c != nil {
			cs = append(cs, c)
		}
	}
	return cs
}

// run runs commands as the shell runs the lines of a script.
func run(src string) (r cell.I) {
	for _, c := range parse(src) {
		r, _ = engine.System(theJob, c)
	}
	return
}

// M evaluates commands step by step in a scope of its own.
type M struct {
	S     scope.I
	F     *frame.T
	T     *task.T
	Steps int
	Max   int
}

// machine makes a machine whose scope is enclosed by the global scope. Errors
// that nothing catches end the command with a failure.
func machine() *M {
	m := &M{S: env.New(global), Max: 20000}
	m.F = m.frame()
	return m
}

func (m *M) frame() *frame.T { return frame.New(m.S, base) }

func (m *M) def(k string, v cell.I) { m.S.Define(k, v) }

// in evaluates one command in frame f.
func (m *M) in(f *frame.T, c cell.I) cell.I {
	t := task.New(theJob, c, f)
	m.T = t
	op := t.PushOp(task.Action(task.EvalCommand))
	for n := 0; op != nil; n++ {
		sx.Assert(n < m.Max, "evaluation never ends")
		op = t.Step(op)
		m.Steps++
	}
	return t.Result()
}

// start evaluates one command as a task of the job.
func (m *M) start(c cell.I) cell.I {
	t := task.New(theJob, c, m.F)
	t.PushOp(task.Action(task.EvalCommand))
	done := make(chan struct{})
	theJob.Spawn(nil, t, func() { close(done) })
	<-done
	return t.Result()
}

// failed tells a failure from a value.
func failed(v cell.I) (string, bool) {
	if v != pair.Null && pair.Is(v) && pair.Car(v) == failure {
		return common.String(pair.Car(pair.Cdr(v))), true
	}
	return "", false
}

// eval evaluates the commands in src and returns the last value.
func (m *M) eval(src string) (r cell.I, msg string, bad bool) {
	r = pair.Null
	for _, c := range parse(src) {
		r = m.in(m.F, c)
		if msg, bad = failed(r); bad {
			return
		}
	}
	return
}

// must evaluates commands that may not fail.
func (m *M) must(src string) cell.I {
	r, msg, bad := m.eval(src)
	sx.Assert(!bad, "unexpected error: "+msg)
	return r
}

// cmd evaluates one command given as cells.
func (m *M) cmd(cs ...cell.I) (r cell.I, msg string, bad bool) {
	r = m.in(m.F, list.New(cs...))
	msg, bad = failed(r)
	return
}

func symbol(s string) cell.I { return sym.New(s) }

func native(f func(t *task.T) task.Op) cell.I { return &task.Method{Op: task.Action(f)} }
