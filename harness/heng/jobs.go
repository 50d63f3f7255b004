package heng

import (
	"bytes"
	"os"
	"strconv"
	"strings"

	"golang.org/x/sys/unix"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/integer"
	"github.com/michaelmacinnis/oh/internal/common/struct/frame"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/system/job"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// A command the user enters.
type entered struct {
	kind     int
	name     string
	t        *task.T
	released int // how often the prompt has been given back
	// What the model expects.
	procs   []*process
	stopped bool
	done    bool
	failed  bool
	result  int // the status, when it is one
}

// A process of a command.
type process struct {
	p      *mos.Proc
	code   int
	halted bool
	dead   bool
}

var shapes = []string{
	"prog NAME",
	"prog NAME | prog b",
	"block {\ndefine NAME1: spawn {\nset NAME: prog a\n}\nset NAME2: prog b\nwait $NAME1\n}",
	"block {\nset NAME: prog a\nprog b\n}",
	"block {\ndefine NAME1: spawn {\nset NAME: prog a\n}\ndefine NAME3: spawn {\nset NAME2: prog b\n}\nwait $NAME1 $NAME3\n}",
}

// A session of a user with jobs.
type session struct {
	m    *M
	all  []*entered
	jobs map[int]*entered
	cur  *entered // the command in the foreground
	wait *entered // the command whose end gives back the prompt
}

func newSession() *session {
	m := machine()
	os.MkdirAll("/bin", 0o755)
	os.WriteFile("/bin/prog", nil, 0o755)
	m.S.Export("PATH", str.New("/bin"))
	mos.Program = nil
	m.F = frame.New(m.S, frame.New(outer, nil))
	return &session{m: m, jobs: map[int]*entered{}}
}

// enter has the shell evaluate a command as its prompt would.
func (s *session) enter(src string) *entered {
	e := &entered{name: strings.ReplaceAll(src, "\n", "; ")}
	j := job.New(0)
	j.Append(e.name)
	e.t = task.New(j, parse(src + "\n")[0], s.m.F)
	e.t.PushOp(task.Action(task.EvalCommand))
	j.Spawn(nil, e.t, func() { e.released++ })
	sx.Quiesce()
	return e
}

// command enters a command of some shape.
func (s *session) command(shape int) {
	name := "v" + strconv.Itoa(len(s.all))
	for _, v := range []string{"", "1", "2", "3"} {
		s.m.def(name+v, str.New("unset"))
	}
	n := len(mos.Procs)
	e := s.enter(strings.ReplaceAll(shapes[shape], "NAME", name))
	e.kind = shape
	want := []int{1, 2, 2, 1, 2}[shape]
	sx.Assert(len(mos.Procs) == n+want, "the number of processes started differs")
	ps := mos.Procs[n:]
	if want == 2 && ps[0].Argv[1] == "b" {
		ps = []*mos.Proc{ps[1], ps[0]}
	}
	for _, p := range ps {
		e.procs = append(e.procs, &process{p: p})
		sx.Assert(p.Group == mos.Procs[n].Pid, "the processes of a job are not in one group")
	}
	s.all = append(s.all, e)
	s.cur, s.wait = e, e
}

// halt is what follows when the job has no process that runs.
func (s *session) halt(e *entered) {
	live := 0
	for _, p := range e.procs {
		if !p.dead {
			live++
			if !p.halted {
				return
			}
		}
	}
	if live == 0 || e.stopped || e.done {
		return
	}
	e.stopped = true
	k := 0
	for n := range s.jobs {
		if n > k {
			k = n
		}
	}
	s.jobs[k+1] = e
	if s.cur == e {
		s.prompt()
	}
}

// finish is what follows when processes end.
func (s *session) finish(e *entered) {
	if e.stopped || e.done {
		return
	}
	for _, p := range e.procs {
		if !p.dead {
			return
		}
	}
	if e.kind == 3 && len(e.procs) == 1 {
		// The command starts its second process.
		sx.Assert(len(mos.Procs) > 0, "the second command was not started")
		p := mos.Procs[len(mos.Procs)-1]
		sx.Assert(p != e.procs[0].p && !p.Done, "the second command was not started")
		sx.Assert(p.Group == p.Pid, "the job is not idle after its last process is gone")
		e.procs = append(e.procs, &process{p: p})
		return
	}
	e.done = true
	if s.cur == e {
		s.prompt()
	}
}

// prompt is what follows when the command in the foreground ends or stops.
func (s *session) prompt() {
	sx.Assert(s.wait.released == 1, "the prompt does not come back once")
	s.cur, s.wait = nil, nil
}

func (s *session) list() string {
	out := ""
	for n, last := 1, s.highest(); n <= last; n++ {
		if e, ok := s.jobs[n]; ok {
			mark := ""
			if n == last {
				mark = "+"
			}
			out += "[" + strconv.Itoa(n) + "]" + mark + "\t" + e.name + "\n"
		}
	}
	return out
}

func (s *session) highest() (k int) {
	for n := range s.jobs {
		if n > k {
			k = n
		}
	}
	return
}

func (s *session) status(name string) int {
	v, ok := integerOf(s.m.must("get " + name + "\n"))
	if !ok {
		return -1
	}
	return v
}

func integerOf(c cell.I) (n int, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return int(integer.Value(c)), true
}

// check compares the shell with the model.
func (s *session) check() {
	sx.Quiesce()
	b := &bytes.Buffer{}
	job.Jobs(b)
	sx.Assert(b.String() == s.list(), "the list of stopped jobs differs: "+b.String()+" instead of "+s.list())
	for i, e := range s.all {
		name := "v" + strconv.Itoa(i)
		for _, p := range e.procs {
			sx.Assert(p.p.Halted == p.halted && p.p.Done == p.dead, "a process is not as it should be")
		}
		sx.Assert(e.t.Completed() == e.done, "a command goes on or ends when it should not: "+e.name)
		first := e.procs[0]
		// The tasks of a stopped job receive nothing until it continues.
		if e.kind == 2 || e.kind == 4 {
			if first.dead && !e.stopped {
				sx.Assert(s.status(name) == first.code, "the task receives another status")
			} else if !first.dead {
				sx.Assert(s.status(name) == -1, "the task receives a status of another process")
			}
			if e.procs[1].dead && !e.stopped {
				sx.Assert(s.status(name+"2") == e.procs[1].code, "the task receives another status")
			} else if !e.procs[1].dead {
				sx.Assert(s.status(name+"2") == -1, "the task receives a status of another process")
			}
		}
		if e.kind == 3 && len(e.procs) == 2 {
			sx.Assert(s.status(name) == first.code, "the task receives another status")
		}
		if e.done && e.kind != 2 && e.kind != 4 {
			v, ok := integerOf(e.t.Result())
			sx.Assert(ok, "the result of a command is not a status")
			sx.Assert(v == e.procs[len(e.procs)-1].code, "the status of a command differs")
		}
	}
}

// Jobs checks the bookkeeping of jobs and the statuses of processes.
func Jobs() {
	s := newSession()
	steps, jobs, kinds := sx.Param("steps", 4), sx.Param("jobs", 2), sx.Param("kinds", 5)
	statuses := sx.Param("statuses", 0)
	// Some jobs have been stopped already.
	for i := 0; i < sx.Param("stopped", 0); i++ {
		s.command(0)
		e := s.cur
		e.procs[0].halted = true
		e.procs[0].p.Stop(int(unix.SIGTSTP))
		sx.Quiesce()
		s.halt(e)
		s.check()
	}
	var open *entered
	for i := 0; i < steps; i++ {
		ev := func(n int) int { return sx.Choice("event"+strconv.Itoa(i), n) }
		// What can happen: to processes, and at the prompt.
		var live []*process
		var of []*entered
		for _, e := range s.all {
			for _, p := range e.procs {
				if !p.dead {
					live = append(live, p)
					of = append(of, e)
				}
			}
		}
		n := 2 * len(live)
		k := 0
		if open != nil {
			sx.Assume(n > 0)
			k = ev(n)
		} else if s.cur == nil {
			k = ev(n + 5)
		} else {
			k = ev(n + 1)
		}

		switch {
		case k < n:
			p, e := live[k/2], of[k/2]
			name := strconv.Itoa(i)
			if k%2 == 0 {
				// It ends.
				var ws uint32
				if statuses > 0 {
					b := sx.Byte("status" + name)
					if sx.Bool("signal" + name) {
						sx.Assume(b&0x7f != 0)
						sx.Assume(b&0x7f != 0x7f)
						ws, p.code = uint32(b), 128+int(b&0x7f)
					} else {
						ws, p.code = uint32(b)<<8, int(b)
					}
				} else if p.code = 40 + i; sx.Choice("signal"+name, 1+sx.Param("killed", 1)) == 1 {
					ws, p.code = 9, 137
				} else {
					ws = uint32(p.code) << 8
				}
				p.dead, p.halted = true, false
				p.p.End(ws)
				sx.Reach("end")
			} else if p.halted {
				// It is continued, as by kill.
				p.halted = false
				p.p.Cont()
				sx.Reach("continue")
			} else {
				// It stops.
				p.halted = true
				p.p.Stop([]int{int(unix.SIGSTOP), int(unix.SIGTSTP), int(unix.SIGTTIN)}[sx.Choice("sig"+name, 1+2*sx.Param("sigs", 0))])
				sx.Reach("stop")
			}
			sx.Assume(open == nil || open == e)
			open = nil
			if i < steps-1 && sx.Param("together", 0) > 0 && sx.Choice("together"+name, 2) == 1 {
				// The shell has not noticed yet when the next thing happens.
				open = e
				sx.Reach("together")
				continue
			}
			sx.Quiesce()
			s.finish(e)
			s.halt(e)
		case s.cur != nil:
			// The user stops the job.
			for _, p := range s.cur.procs {
				if !p.dead && !p.halted {
					p.halted = true
					p.p.Stop(int(unix.SIGTSTP))
				}
			}
			sx.Quiesce()
			s.halt(s.cur)
			sx.Reach("key")
		case k == n:
			if len(s.all) == jobs {
				sx.Assume(false)
			}
			s.command(sx.Choice("kind"+strconv.Itoa(i), kinds))
		default:
			which := ""
			num := 0
			if k > n+2 {
				num = 1 + sx.Choice("number"+strconv.Itoa(i), sx.Param("numbers", 3))
				which = " " + strconv.Itoa(num)
			} else {
				num = s.highest()
			}
			fg := (k-n)%2 == 1
			cmd := "bg" + which
			if fg {
				cmd = "fg" + which
			}
			e, ok := s.jobs[num]
			errors := mos.Stderr.Text()
			c := s.enter(cmd)
			if !ok {
				msg := mos.Stderr.Text()[len(errors):]
				sx.Assert(c.released == 1 && strings.Contains(msg, "job does not exist"), "an unknown job is not reported")
				sx.Reach("unknown")
				break
			}
			delete(s.jobs, num)
			e.stopped = false
			for _, p := range e.procs {
				p.halted = false
			}
			if fg {
				s.cur, s.wait = e, c
				group := 1
				for _, p := range e.procs {
					if !p.dead {
						group = p.p.Group
					}
				}
				sx.Assert(mos.FgGroup == group, "the job's group is not in the foreground")
				sx.Assert(c.t.Completed(), "fg does not end")
			} else {
				sx.Assert(c.released == 1, "bg does not end")
				sx.Assert(c.t.Result() == cell.I(e.t), "bg returns another task")
			}
			s.finish(e)
			sx.Reach("resume")
		}
		if s.wait != nil {
			sx.Assert(s.wait.released == 0, "the prompt comes back while the job runs")
		}
		s.check()
	}
}
