package heng

import (
	"strconv"

	"github.com/michaelmacinnis/oh/internal/common/struct/frame"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/system/job"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// The kinds of steps of a task.
const (
	stepPlain = iota // does nothing
	stepWait         // waits for a result, as for a process
	stepBusy         // takes until it is let go
	nSteps
)

// What a task has been told to do.
const (
	toRun = iota
	toStop
	toDie
)

// A watched task.
type watched struct {
	*job.T
	t    *task.T
	kind []int

	begun int // steps begun
	got   int // results received
	told  int // how often the end was announced

	want    int
	either  bool // whether an interrupt may have come too late
	running bool // whether it has not ended since it was last told to run
	ending  int  // how often it is about to have ended
	again   bool // whether it was told to run since
	vague   bool // whether it may be running

	waiting bool // for a result
	held    bool // in a step that takes long
	free    bool // whether steps take no longer
	gate    chan int
	extra   int  // steps begun since it was last told to stop
	stopped bool // whether it was told to stop
}

// request has the monitor do something, and waits.
func (w *watched) request(f func()) {
	done := make(chan int)
	w.Await(func() {
		f()
		close(done)
	}, nil)
	<-done
}

// Stopped is called by the task when it has stopped.
func (w *watched) Stopped(t *task.T) {
	w.Await(func() { w.ending, w.again, w.vague = w.ending+1, w.want == toRun, false }, nil)
	w.T.Stopped(t)
	w.Await(func() {
		w.ending--
		w.running = w.want == toRun && !w.over()
		// It may have been told to run, and to stop, before or after it ended.
		w.vague = w.again && !w.running && !w.over()
	}, nil)
}

func (w *watched) over() bool { return w.begun == len(w.kind) && w.got == w.waits(w.begun) }

// waits is the number of waits among the first n steps.
func (w *watched) waits(n int) (k int) {
	for _, s := range w.kind[:n] {
		if s == stepWait {
			k++
		}
	}
	return
}

// begin is called when any operation begins.
func (w *watched) begin() {
	if w.stopped {
		w.extra++
	}
	sx.Assert(w.extra <= 1, "a task that was told to stop goes on")
	sx.Assert(!w.waiting, "a task that waits goes on")
}

func (w *watched) step(i int) task.Op {
	return task.Action(func(t *task.T) task.Op {
		w.begin()
		sx.Assert(w.begun == i, "a step is repeated or left out")
		w.begun++
		switch w.kind[i] {
		case stepWait:
			w.request(func() {
				t.Wait()
				w.waiting = true
			})
		case stepBusy:
			if !w.free {
				w.held = true
				<-w.gate
			}
		}
		return t.PreviousOp()
	})
}

func (w *watched) receive(i int) task.Op {
	return task.Action(func(t *task.T) task.Op {
		w.begin()
		sx.Assert(w.begun == i+1 && w.got == w.waits(i), "a step is repeated or left out")
		w.got++
		v := t.Value()
		sx.Assert(v != nil && str.Is(v) && str.To(v).String() == strconv.Itoa(w.got), "a task receives another result")
		t.ReplaceResult(v)
		return t.PreviousOp()
	})
}

func (w *watched) run() {
	if w.want != toDie {
		w.want = toRun
		w.stopped, w.extra = false, 0
		w.running = w.running || !w.over()
	}
	w.again = true
	w.t.Run()
}

func (w *watched) stop() {
	w.t.Stop()
	if w.want == toRun && (w.running || w.ending > 0) {
		w.want = toStop
		w.stopped, w.extra = true, 0
	}
}

func (w *watched) interrupt() {
	w.t.Interrupt()
	switch {
	case w.want == toRun && (w.running || w.ending > 0):
		w.want = toDie
		w.stopped, w.extra = true, 0
	case w.want == toStop && (w.ending > 0 || w.vague):
		w.either = true
	case w.want == toStop && w.running:
		w.want = toDie
	}
}

func (w *watched) notify() {
	w.waiting = false
	w.t.Notify(str.New(strconv.Itoa(w.got + 1)))
}

// check is called when nothing moves.
func (w *watched) check() {
	if w.held {
		return
	}
	w.vague = false
	if w.either {
		w.either = false
		if w.t.Completed() {
			w.want = toDie
		}
	}
	switch w.want {
	case toRun:
		if w.waiting {
			sx.Assert(!w.t.Completed(), "a task that waits is done")
			sx.Reach("waiting")
			break
		}
		sx.Assert(w.over() && w.t.Completed(), "a task that should run is blocked")
	case toStop:
		sx.Assert(w.over() || !w.t.Completed(), "a task that was told to stop is lost")
		sx.Assert(!w.running, "a task that was told to stop has not")
		sx.Reach("stopped")
	case toDie:
		sx.Assert(w.t.Completed(), "a task that was interrupted is not done")
		sx.Reach("interrupted")
	}
	if w.t.Completed() {
		sx.Assert(w.told == 1, "the end of a task is not announced once")
	} else {
		sx.Assert(w.told == 0, "the end of a task is announced before")
	}
}

// Halting checks that a task stops, goes on and receives results as it is
// told, whenever it is told.
func Halting() {
	sx.Enter()
	j := job.New(0)
	f := frame.New(global, base)
	n, events := sx.Param("steps", 2), sx.Param("events", 3)
	w := &watched{T: j, gate: make(chan int), running: true}
	for i := 0; i < n; i++ {
		w.kind = append(w.kind, sx.Choice("kind", sx.Param("kinds", nSteps)))
	}
	w.t = task.New(w, pair.Null, f)
	w.t.PushResult(pair.Null)
	for i := n - 1; i >= 0; i-- {
		if w.kind[i] == stepWait {
			w.t.PushOp(w.receive(i))
		}
		w.t.PushOp(w.step(i))
	}
	parent := task.New(j, pair.Null, f)
	sx.Leave()

	j.Spawn(parent, w.t, func() { w.told++ })
	for i := 0; i < events; i++ {
		switch sx.Choice("event", 6) {
		case 0:
			w.request(w.stop)
		case 1:
			w.request(w.run)
		case 2:
			w.request(w.interrupt)
		case 3:
			sx.Assume(w.waiting)
			w.request(w.notify)
			sx.Reach("notified")
		case 4:
			sx.Assume(w.held)
			w.held = false
			w.gate <- 1
		case 5:
			sx.Quiesce()
			w.check()
		}
	}
	sx.Quiesce()
	w.check()

	// In the end it runs.
	w.free = true
	if w.held {
		w.held = false
		w.gate <- 1
		sx.Quiesce()
		w.check()
	}
	w.request(w.run)
	for {
		sx.Quiesce()
		w.check()
		if !w.waiting || w.want == toDie {
			break
		}
		w.request(w.notify)
	}
	sx.Assert(w.t.Completed(), "a task that should run is blocked")
	sx.Reach("over")
}
