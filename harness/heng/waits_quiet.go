package heng

import (
	"strconv"
	"strings"

	"golang.org/x/sys/unix"

	"github.com/michaelmacinnis/oh/internal/common/interface/integer"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// A task, or the command that is in the foreground, that ends once its gate
// has been opened and the tasks it waits for have ended.
type expected struct {
	name   string // of the variable that holds the task, if any
	deps   []*expected
	gated  bool // whether it has a gate
	open   bool // and whether that is open
	halted bool // whether it has been stopped
	over   bool
	front  bool // whether it holds up the prompt
	marks  int  // how often its wait has ended
	kids   []*expected
}

type waiting struct {
	s     *session
	all   []*expected
	kept  []*expected // those started at the prompt
	gates map[int]chan int
	front *expected
	e     *entered // that gives back the prompt
}

func (w *waiting) add(deps ...*expected) *expected {
	x := &expected{deps: deps, name: "t" + strconv.Itoa(len(w.all))}
	w.all = append(w.all, x)
	return x
}

func (w *waiting) update() {
	for again := true; again; {
		again = false
		for _, x := range w.all {
			if x.over || x.halted || x.gated && !x.open {
				continue
			}
			over := true
			for _, d := range x.deps {
				over = over && d.over
			}
			if over {
				x.over, again = true, true
			}
		}
	}
}

// check compares the tasks with what is expected of them.
func (w *waiting) check() {
	sx.Quiesce()
	w.update()
	for i, x := range w.all {
		if x.marks >= 0 {
			n := 0
			if x.over {
				n = 1
				sx.Reach("released")
			} else {
				sx.Reach("held")
			}
			sx.Assert(x.marks >= n, "a wait does not end: "+strconv.Itoa(i))
			sx.Assert(x.marks <= n, "a wait ends before the tasks it waits for, or twice: "+strconv.Itoa(i))
		}
		if r := w.s.m.S.Lookup(x.name); r != nil {
			t, ok := r.Get().(*task.T)
			sx.Assert(ok, "a task is not a task")
			sx.Assert(t.Completed() == x.over, "a task is over too early or too late")
		}
	}
	if w.front != nil {
		back := w.front.over || w.front.halted
		sx.Assert(w.e.released <= 1, "the prompt comes back twice")
		sx.Assert(w.e.released == 1 || !back, "the prompt does not come back")
		sx.Assert(w.e.released == 0 || back, "the prompt comes back too early")
		if back {
			w.front = nil
		}
	}
}

// Waits checks that waits end once all the tasks waited for have ended.
func Waits() {
	sx.Enter()
	w := &waiting{s: newSession(), gates: map[int]chan int{}}
	w.s.m.def("hold", native(func(t *task.T) task.Op {
		c := make(chan int)
		w.gates[int(integer.Value(pair.Car(t.Code())))] = c
		<-c
		return t.Return(pair.Null)
	}))
	w.s.m.def("mark", native(func(t *task.T) task.Op {
		w.all[int(integer.Value(pair.Car(t.Code())))].marks++
		return t.Return(pair.Null)
	}))
	together := sx.Param("together", 0) > 0
	sx.Leave()

	var asleep []*expected // the commands that have been stopped
	steps := sx.Param("steps", 4)
	for i := 0; i < steps; i++ {
		// Gates that can be opened.
		var shut []int
		for k, x := range w.all {
			if x.gated && !x.open {
				shut = append(shut, k)
			}
		}
		n := len(shut)
		extra := sx.Param("commands", 9)
		if w.front != nil {
			extra = sx.Param("keys", 1)
		}
		sx.Assume(n+extra > 0)
		k := sx.Choice("event"+strconv.Itoa(i), n+extra)
		if k < n {
			w.all[shut[k]].open = true
			close(w.gates[shut[k]])
			if together {
				continue
			}
			w.check()
			continue
		}
		k -= n
		if w.front != nil {
			// The user stops the command in the foreground.
			if together {
				w.check()
				sx.Assume(w.front != nil)
			}
			asleep = append(asleep, w.stop())
			w.check()
			sx.Reach("stop")
			continue
		}
		num := strconv.Itoa(len(w.all))
		pick := func() *expected {
			var named []*expected
			for _, x := range w.kept {
				if x.name != "none" {
					named = append(named, x)
				}
			}
			if len(named) == 0 {
				sx.Assume(false)
			}
			return named[sx.Choice("task", len(named))]
		}
		var x *expected
		src := ""
		front := false
		switch k {
		case 0: // a task
			x = w.add()
			x.gated, x.marks = true, -1
			w.kept = append(w.kept, x)
			src = "define NAME: spawn {\nhold " + num + "\nquote over\n}"
		case 1, 2: // waiting for one or two tasks
			a := pick()
			src = "block {\nwait $" + a.name
			x = w.add(a)
			if k == 2 {
				b := pick()
				src += " $" + b.name
				x.deps = append(x.deps, b)
			}
			src += "\nmark " + num + "\n}"
			front = true
		case 3: // waiting for all of them
			x = w.add(w.kept...)
			src = "block {\nwait\nmark " + num + "\n}"
			front = true
		case 4: // a task that waits for another
			a := pick()
			x = w.add(a)
			w.kept = append(w.kept, x)
			src = "define NAME: spawn {\nwait $" + a.name + "\nmark " + num + "\n}"
		case 5: // a task that waits for its child
			x = w.add()
			x.gated = true
			w.kept = append(w.kept, x)
			src = "define NAME: spawn {\nspawn {\nhold " + num + "\nquote over\n}\nwait\nmark " + num + "\n}"
		case 6: // waiting for a task of one's own
			c := w.add()
			c.gated, c.marks = true, -1
			w.kept = append(w.kept, c)
			x = w.add(c)
			x.kids = []*expected{c}
			src = "block {\ndefine c: spawn {\nhold " + num + "\nquote over\n}\nwait $c\nmark " + strconv.Itoa(len(w.all)-1) + "\n}"
			front = true
			c.name = "none"
		case 7: // a task that waits for its children
			var src2 string
			x = &expected{}
			for i := 0; i < 2; i++ {
				c := w.add()
				c.gated, c.marks, c.name = true, -1, "none"
				x.deps = append(x.deps, c)
				src2 += "spawn {\nhold " + strconv.Itoa(len(w.all)-1) + "\nquote over\n}\n"
			}
			x.name, x.gated = "t"+strconv.Itoa(len(w.all)), true
			num = strconv.Itoa(len(w.all))
			w.all = append(w.all, x)
			w.kept = append(w.kept, x)
			src = "define NAME: spawn {\n" + src2 + "hold " + num + "\nwait\nmark " + num + "\n}"
		case 8: // continuing a command that was stopped
			sx.Assume(len(asleep) > 0)
			bg := sx.Choice("bg", 2) == 1
			x, asleep = awake(asleep)
			src = "fg"
			if bg {
				src = "bg"
			}
			front = !bg
			sx.Reach("continue")
		}
		e := w.s.enter(strings.ReplaceAll(src, "NAME", "t"+num))
		if front {
			w.front, w.e = x, e
		} else {
			sx.Assert(e.released == 1, "the prompt does not come back")
		}
		w.check()
	}
	// In the end every task ends.
	for k, x := range w.all {
		if x.gated && !x.open {
			x.open = true
			close(w.gates[k])
		}
	}
	w.check()
	if len(asleep) > 0 {
		if w.front != nil {
			// It may wait for tasks that were stopped.
			asleep = append(asleep, w.stop())
			w.check()
		}
		for len(asleep) > 0 {
			_, asleep = awake(asleep)
			w.s.enter("bg")
			w.check()
		}
	}
	for _, x := range w.all {
		sx.Assert(x.over, "a task never ends")
	}
	sx.Reach("over")
}

// awake continues the command that was stopped last.
func awake(asleep []*expected) (*expected, []*expected) {
	n := len(asleep) - 1
	x := asleep[n]
	x.halted = false
	for _, c := range x.kids {
		c.halted = false
	}
	return x, asleep[:n]
}

// stop stops the command in the foreground.
func (w *waiting) stop() *expected {
	mos.Raise(unix.SIGTSTP)
	x := w.front
	x.halted = true
	for _, c := range x.kids {
		c.halted = !c.over
	}
	return x
}
