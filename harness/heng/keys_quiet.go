package heng

import (
	"strconv"
	"strings"

	"golang.org/x/sys/unix"

	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// A working command works: its tasks call work, which may take long.
type working struct {
	begun map[*task.T]int
	total int
	held  []chan int
}

var workShapes = []string{
	"block {\nwork\nwork\nwork\n}",
	"block {\ndefine c: spawn {\nwork\nwork\n}\nwork\nwait $c\nwork\n}",
	"block {\nspawn {\nspawn {\nwork\nwork\n}\nwait\nwork\n}\nwait\nwork\n}",
	"block {\nspawn {\nwork\nwork\n}\nspawn {\nwork\nwork\n}\nwait\n}",
}

var workTotal = []int{3, 4, 4, 4}

// Keys checks that a command made of several tasks stops, goes on and ends as
// a whole when the user types the keys for that.
func Keys() {
	sx.Enter()
	s := newSession()
	shape := sx.Choice("shape", sx.Param("shapes", len(workShapes)))
	slow := sx.Param("slow", 2)
	x := &working{begun: map[*task.T]int{}}
	free := false
	s.m.def("work", native(func(t *task.T) task.Op {
		x.begun[t]++
		x.total++
		// Some of the calls take until they are let go.
		if x.total <= slow && !free {
			c := make(chan int)
			x.held = append(x.held, c)
			<-c
		}
		return t.Return(pair.Null)
	}))
	sx.Leave()
	if sx.Param("settle", 0) > 0 {
		sx.Enter()
	}
	e := s.enter(strings.ReplaceAll(workShapes[shape], "NAME", "x"))
	if sx.Param("settle", 0) > 0 {
		sx.Leave()
	}

	const (
		goes = iota
		stopped
		dead
		vague
	)
	mode := goes
	prompt := e
	settle := func(keys []bool) {
		sx.Quiesce()
		for len(x.held) > 0 {
			// A call that takes long ends before its task can stop.
			for _, c := range x.held {
				close(c)
			}
			x.held = nil
			total := x.total
			sx.Quiesce()
			sx.Assert(len(keys) == 0 || x.total == total, "a task of a command that was stopped or interrupted goes on")
		}
		// The first key that interrupts ends it.
		stop, intr, late := false, false, false
		for _, k := range keys {
			if k {
				intr = true
				late = late || stop
			} else {
				stop = true
			}
		}
		done := e.t.Completed()
		switch {
		case mode == dead:
		case x.total == workTotal[shape] && done:
			sx.Reach("done")
		case intr && !late:
			mode = dead
			sx.Reach("interrupted")
		case intr:
			// Each of its tasks was interrupted or had stopped before.
			mode = vague
		case stop:
			mode = stopped
			sx.Reach("stopped")
		}
		switch mode {
		case goes:
			sx.Assert(done && x.total == workTotal[shape], "a command that should go on does not")
		case stopped:
			sx.Assert(!done, "a command that was stopped is lost")
		case dead:
			sx.Assert(done, "a command that was interrupted is not over")
		}
		sx.Assert(prompt.released == 1, "the prompt does not come back once")
	}

	// What the user does while the command runs, and then when it has stopped.
	rounds := sx.Param("rounds", 2)
	for round := 0; round < rounds; round++ {
		var keys []bool
		for i := 0; i < sx.Param("keys", 2); i++ {
			switch sx.Choice("key", 3) {
			case 0:
				mos.Raise(unix.SIGTSTP)
				keys = append(keys, false)
			case 1:
				mos.Raise(unix.SIGINT)
				keys = append(keys, true)
			case 2:
				if len(x.held) > 0 {
					c := x.held[0]
					x.held = x.held[1:]
					c <- 1
				}
			}
		}
		settle(keys)
		total := x.total
		sx.Quiesce()
		sx.Assert(x.total == total, "a command that was stopped goes on")
		if mode == vague {
			return
		}
		if mode != stopped || round == rounds-1 {
			break
		}
		slow += x.total // calls may take long again
		bg := sx.Choice("bg", 2) == 1
		cmd := "fg"
		if bg {
			cmd = "bg"
		}
		mode = goes
		c := s.enter(cmd)
		if bg {
			sx.Assert(c.released == 1, "bg does not end")
			settle(nil)
			break
		}
		prompt = c
	}
	if mode == stopped {
		free = true
		prompt = s.enter("fg")
		mode = goes
		settle(nil)
	}
	if mode == goes {
		sx.Assert(e.t.Completed() && x.total == workTotal[shape], "a command that should go on does not")
	}
	total := x.total
	sx.Quiesce()
	sx.Assert(x.total == total, "a command that is over goes on"+strconv.Itoa(total))
	sx.Reach("over")
}
