package heng

import (
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Where a method sets its handler.
const (
	hNone  = iota
	hFirst // before it calls the next method
	hLate  // after that
	hInBlock
	hEndedBlock
	hTwo // two handlers
	nPlaces
)

// What a handler does.
const (
	aReturn = iota
	aPass   // ends without returning: the error goes on
	aThrow
	aFail
	aCallFail // calls a method that fails
	nActions
)

// faults are ways to fail; what they run before is in faultLog.
var faults = []string{
	"throw $message",
	"add 1 foo",
	"nosuchcommand x",
	"helper 1 2",
	"resolve nosuch",
	"list (p a) (add 1 foo) (p n)",
	"if (add 1 foo) {\n p n\n} else {\n p n\n}",
	"block {\n define x 77\n p b\n throw $message\n p n\n}",
	"while (p c) {\n define x 78\n helper 1\n p n\n}",
	"helper",
	"(list 1) get 5",
	"set nosuch 1",
	"str nosuch x",
	"eval (list throw $message)",
	"and (p a) (throw $message) (p n)",
	"(throw $message) x",
	"if (gt? 1 (list)) {\n p n\n}",
	"list (splice 5)",
	"for (list 1 2) (method (i) {\n p i\n throw $message\n p n\n})",
}

// What each of them runs: the label and the value of x seen there (@: that of
// the method).
var faultLog = []string{"", "", "", "", "", "a@", "", "b77", "c@ h0", "", "", "", "", "", "a@", "", "", "", "i@"}

// Unwind checks where an error goes.
func Unwind() {
	m := machine()
	levels := sx.Param("levels", 2)
	var log []string
	note := func(t *task.T, s string) {
		log = append(log, s+common.String(t.CellValue("x")))
	}
	m.def("p", native(func(t *task.T) task.Op {
		note(t, common.String(pair.Car(t.Code())))
		n := sx.Rat("p") // true
		sx.Assume(n.Sign() != 0)
		return t.Return(num.Rat(n))
	}))
	text := sx.Str("message", 1)
	message := str.New(text)
	m.def("message", message)
	var msgs []string
	m.def("caught", native(func(t *task.T) task.Op {
		note(t, common.String(pair.Car(t.Code())))
		msgs = append(msgs, common.String(pair.Car(pair.Cdr(t.Code()))))
		return t.Return(pair.Null)
	}))
	m.must("define x 0\ndefine helper: method (only) {\n p h\n add $only bar\n p n\n}\n")

	// The fault and where it happens.
	kind := 0
	if sx.Param("faults", 0) > 0 {
		kind = sx.Choice("fault", len(faults))
	} else {
		kind = sx.Choice("fault", sx.Param("kinds", 2))
	}
	where := sx.Choice("where", levels) // the method that fails
	early := where == levels-1 || sx.Choice("early", 2) == 1

	place := make([]int, levels)
	action := make([]int, levels)
	src := ""
	for i := levels - 1; i >= 0; i-- {
		place[i] = sx.Choice("place", nPlaces)
		if place[i] != hNone {
			action[i] = sx.Choice("action", nActions)
		}
		n := strconv.Itoa(i)
		acts := []string{"return (list v" + n + ")", "list", "throw t" + n, "add u" + n + " 1", "failing " + n}
		clause := func(name string, a int) string {
			return "catch ex {\n caught " + name + " $ex\n " + acts[a] + "\n}\n"
		}
		handler := clause("H"+n, action[i])
		call := "p c" + n + "\n"
		if i < levels-1 {
			call = "define got (f" + strconv.Itoa(i+1) + ")\np g" + n + "\n"
		}
		if where == i && early {
			call = faults[kind] + "\n" + call
		}
		body := "define x 1" + n + "\np s" + n + "\n"
		switch place[i] {
		case hNone:
			body += call
		case hFirst:
			body += handler + call
		case hLate:
			body += call + handler
		case hInBlock:
			body += "block {\n" + handler + call + "}\n"
		case hEndedBlock:
			body += "block {\n" + handler + "}\n" + call
		case hTwo:
			body += clause("I"+n, aReturn) + handler + call
		}
		if where == i && !early {
			body += faults[kind] + "\n"
		}
		body += "p e" + n + "\nlist w" + n + "\n"
		src += "define f" + n + ": method () {\n" + body + "}\n"
	}
	src += "define failing: method (n) {\n define x 9\n p q\n add z$n 1\n p n\n}\n"
	m.must(strings.ReplaceAll(src, "z$n", "zz"))
	r, msg, bad := m.eval("block {\n define x 5\n p 1\n define y (list (f0))\n p 2\n list done $y\n}\n")

	// What should happen.
	var want []string
	wantMsgs := []string{}
	// unwind runs the handlers of method i; it reports that the method
	// returns.
	current := "" // the message of the error; "" is one of the shell
	if kind == 0 || kind == 7 || kind >= 13 && kind <= 15 || kind == 18 {
		current = text
		sx.Assume(text != "\x00")
	}
	handle := func(i int, active bool) bool {
		if !active {
			return false
		}
		n := strconv.Itoa(i)
		want = append(want, "H"+n+"1"+n)
		wantMsgs = append(wantMsgs, current)
		switch action[i] {
		case aReturn:
			return true
		case aThrow:
			current = "t" + n
		case aFail:
			current = ""
		case aCallFail:
			want = append(want, "q9")
			current = ""
		}
		if place[i] == hTwo {
			want = append(want, "I"+n+"1"+n)
			wantMsgs = append(wantMsgs, current)
			return true
		}
		return false
	}
	const (
		ended = iota
		returned
		thrown
	)
	var call func(i int) int
	call = func(i int) int {
		n := strconv.Itoa(i)
		x := "1" + n
		want = append(want, "s"+n+x)
		active := place[i] == hFirst || place[i] == hInBlock || place[i] == hTwo
		fail := func() int {
			for _, l := range strings.Fields(faultLog[kind]) {
				if l[1:] == "@" {
					l = l[:1] + x
				}
				want = append(want, l)
			}
			if handle(i, active) {
				return returned
			}
			return thrown
		}
		if where == i && early {
			return fail()
		}
		if i == levels-1 {
			want = append(want, "c"+n+x)
		} else {
			if call(i+1) == thrown {
				if handle(i, active) {
					return returned
				}
				return thrown
			}
			want = append(want, "g"+n+x)
		}
		active = place[i] == hFirst || place[i] == hLate || place[i] == hTwo
		if where == i {
			return fail()
		}
		want = append(want, "e"+n+x)
		return ended
	}
	want = append(want, "15")
	res := call(0)
	if res != thrown {
		want = append(want, "25")
	}
	got := strings.Join(log, " ")
	sx.Assert(got == strings.Join(want, " "), "an error does not go where it should: "+got+" for "+strings.Join(want, " "))
	sx.Assert(len(msgs) == len(wantMsgs), "a handler runs more or less than once")
	for i, w := range wantMsgs {
		sx.Assert(w == "" && len(msgs[i]) > 1 || w != "" && msgs[i] == w, "a handler gets another message")
	}
	sx.Assert(bad == (res == thrown), "an error is lost, or raised again")
	switch res {
	case thrown:
		sx.Assert(current == "" && len(msg) > 1 || msg == current, "another message is reported")
		sx.Reach("uncaught")
	case returned:
		v := common.String(pair.Car(pair.Car(pair.Car(pair.Cdr(r)))))
		if place[0] == hTwo && action[0] != aReturn {
			sx.Assert(v == "v0", "a handler returns another value")
		}
		sx.Assert(v == "v0", "a handler returns another value")
		sx.Reach("caught")
	case ended:
		sx.Assert(common.String(pair.Car(pair.Car(pair.Car(pair.Cdr(r))))) == "w0", "a method returns another value")
		sx.Reach("recovered")
	}
	m.must("p 3\n")
	sx.Assert(log[len(log)-1] == "30", "an error leaves a later command in another scope")
}

// Uncaught checks that an error nothing catches is reported and ends just the
// command.
func Uncaught() {
	run("define x 1\n")
	global.Define("message", str.New("the message"))
	global.Define("p", native(func(t *task.T) task.Op {
		sx.Assert(common.String(pair.Car(t.Code())) != "n", "a command runs after an error")
		return t.Return(symbol("p"))
	}))
	run("define helper: method (only) {\n add $only bar\n p n\n}\n")
	i := sx.Choice("fault", len(faults))
	before := ""
	if sx.Symbolic() {
		before = mos.Stderr.Text()
	}
	run("block {\n define x 2\n define f: method () {\n" + faults[i] + "\np n\n}\n f\n p n\n}\n")
	if sx.Symbolic() {
		out := mos.Stderr.Text()[len(before):]
		j := strings.LastIndex(out, "error: ")
		sx.Assert(j == 0 || j > 0 && out[j-1] == '\n', "an error is not reported")
		sx.Assert(strings.Count(out, "error: ") == 1, "an error is reported more than once")
		sx.Assert(len(out) > j+8 && out[len(out)-1] == '\n', "an error is reported without its message")
		if strings.Contains(faults[i], "$message") {
			sx.Assert(out[j:] == "error: the message\n", "another message is reported")
		}
	}
	sx.Assert(common.String(run("resolve x\n")) == "1", "an error leaves a later command in another scope")
	sx.Reach("uncaught")
}

// Outlived checks that a handler has no effect once the method that set it
// has ended, even for the methods defined there.
func Outlived() {
	m := machine()
	var log []string
	m.def("p", native(func(t *task.T) task.Op {
		log = append(log, common.String(pair.Car(t.Code())))
		sx.Assert(len(log) < 10, "an error goes to a handler of a method that has ended, again and again")
		return t.Return(symbol("p"))
	}))
	m.def("message", str.New("m"))
	m.must("define make: method () {\n catch ex {\n  p 1\n  return 5\n }\n return (method () {\n  p 2\n  " + faults[sx.Choice("fault", 2)] + "\n  p n\n })\n}\n")
	m.must("define use: method () {\n catch ex {\n  p 3\n  return 6\n }\n f\n p n\n}\n")
	sx.Reach("outlived")
	r, _, bad := m.eval("block {\n define f (make)\n p 0\n define r (use)\n p 4\n resolve r\n}\n")
	sx.Assert(!bad && strings.Join(log, "") == "0234" && common.String(r) == "6", "an error goes to the handler of a method that has ended")
}
