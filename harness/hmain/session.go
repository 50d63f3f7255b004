package hmain

import (
	"io"
	"os"
	"strings"

	"github.com/michaelmacinnis/oh/internal/engine"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
	"github.com/peterh/liner"
)

// SessionSetup starts the shell with a short prompt and a variable that tells
// what was run.
func SessionSetup() {
	os.MkdirAll("/home/d", 0o755)
	os.WriteFile("/home/ab", nil, 0o644)
	os.Chdir("/home")
	zzShell()
	for _, l := range zzPreamble {
		zzType(l)
	}
}

var zzPreamble = []string{
	"define complete: method ((args)) {", "return ()", "}",
	"replace-make-prompt: method (suffix) {", "return $suffix", "}",
	"define r 0",
	"define log: method (v) {", "set r: mend '' $r $v", "}",
}

// What is open at the prompt.
const (
	zzClosed = iota
	zzBlock
	zzInner
	zzString
	zzJoined
)

// Session types lines at the prompt and checks that each command typed is run
// once, in order, when it is complete.
func Session() {
	open := zzClosed
	done := "0"    // What was run.
	more := false  // Something is open.
	fails := false // The command open has a string for its name.
	pending := ""  // What will be run when the command is complete.
	typed := append([]string(nil), zzPreamble...)
	steps := sx.Param("steps", 3)
	tabs := sx.Param("tabs", 1)
	aborts := sx.Param("aborts", 1)
	text := func() string {
		c := sx.Str("text", 1)
		if sx.Param("chars", 0) > 0 {
			sx.Assume(sx.In(c[0], "a}"))
			return c
		}
		sx.Assume(c[0] >= 0x20 && c[0] < 0x7f && c[0] != '\'')
		return c
	}
	word := func() string {
		c := sx.Str("word", 1)
		if sx.Param("chars", 0) > 0 {
			sx.Assume(sx.In(c[0], "ab"))
			return c
		}
		sx.Assume(sx.In(c[0], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))
		return c
	}
	enter := func(line string) {
		if (line != "" || more) && (len(typed) == 0 || typed[len(typed)-1] != line) {
			typed = append(typed, line)
		}
		p := zzType(line)
		switch open {
		case zzClosed:
			sx.Assert(p == ": ", "the prompt after "+line+" is not that for a new command")
		default:
			sx.Assert(p == "  ", "the prompt after "+line+" is not that for more of a command")
		}
		sx.Assert(engine.Resolve("r") == done, "what was run after "+line+" is "+engine.Resolve("r")+" and not "+done)
	}
	run := func(s string) {
		done += s
		pending = ""
		open = zzClosed
	}
	for i := 0; i < steps; i++ {
		if aborts > 0 && sx.Choice("abort", 2) == 1 {
			aborts--
			open = zzClosed
			pending = ""
			zzAnswers <- zzTyped{err: liner.ErrPromptAborted}
			p := <-zzAsked
			sx.Assert(p == ": ", "the prompt after an interrupt is not that for a new command")
			sx.Assert(engine.Resolve("r") == done, "an interrupt at the prompt runs something")
			sx.Reach("abort")
			continue
		}
		if tabs > 0 && sx.Choice("tab", 2) == 1 {
			tabs--
			t := []string{"a", "a ", "log (a", "log 'a", "}", "", "a {", "log $a", "; a b", "\\"}[sx.Choice("tabbed", sx.Param("tabbed", 10))]
			zzComplete(t, len(t))
			sx.Assert(engine.Resolve("r") == done, "completing runs something")
			sx.Reach("tab")
		}
		more = open != zzClosed
		switch open {
		case zzClosed:
			switch sx.Choice("closed", sx.Param("closed", 14)) {
			case 0:
				c := text()
				run(c)
				enter("log '" + c + "'")
				sx.Reach("run")
			case 1:
				open = zzBlock
				enter("if true {")
			case 2:
				pending = text()
				fails = false
				open = zzString
				enter("log '" + pending)
			case 3:
				open = zzJoined
				enter("log \\")
			case 4:
				enter("log x )")
				sx.Reach("syntax")
			case 5:
				c := word()
				run(c)
				enter("log " + c + "; car 1; log y")
				sx.Reach("error")
			case 6:
				enter("")
				sx.Reach("empty")
			case 7:
				c, d := word(), word()
				run(c + d)
				enter("log " + c + "; log " + d)
			case 8:
				open = zzBlock
				pending = word()
				enter("log " + pending + "; if true {")
			case 9:
				c := word()
				run(c)
				enter("log " + c + " # { (")
			case 10:
				enter("   ")
				sx.Reach("blank")
			case 11:
				enter("# log x {")
				sx.Reach("blank")
			case 12:
				// No command has such a name.
				pending = ""
				fails = true
				open = zzString
				enter("'" + text())
			case 13:
				pending = word()
				fails = true
				open = zzString
				enter("log " + pending + "; 'x")
			}
		case zzBlock, zzInner:
			switch sx.Choice("block", sx.Param("block", 7)) {
			case 0:
				c := text()
				if open == zzBlock {
					pending += c
				}
				enter("log '" + c + "'")
			case 1:
				if open == zzInner {
					open = zzBlock
				} else {
					run(pending)
				}
				enter("}")
				sx.Reach("block")
			case 2:
				run("")
				enter("log )")
				sx.Reach("syntax")
			case 3:
				enter("")
				sx.Reach("empty")
			case 4:
				if open == zzInner {
					return
				}
				open = zzInner
				enter("while false {")
			case 5, 6:
				c := word()
				last := "}; log " + c
				if open == zzInner {
					open = zzBlock
					pending += c
				} else {
					run(pending + c)
					if sx.Choice("error", 2) == 1 {
						// The rest is not run.
						last += "; car 1; log z"
					}
				}
				enter(last)
			}
		case zzString:
			switch sx.Choice("string", sx.Param("string", 3)) {
			case 0:
				c := word()
				if fails {
					run(pending)
					enter(c + "'; log x")
					sx.Reach("unknown")
				} else {
					run(pending + "\n" + c)
					enter(c + "'")
				}
				sx.Reach("string")
			case 1:
				c := text()
				if !fails {
					pending += "\n" + c
				}
				enter(c)
			case 2:
				if !fails {
					pending += "\n"
				}
				enter("")
				sx.Reach("empty")
			}
		case zzJoined:
			switch sx.Choice("joined", sx.Param("joined", 3)) {
			case 0:
				c := word()
				run(c)
				enter(c)
				sx.Reach("joined")
			case 1:
				enter("\\")
			case 2:
				c := word()
				run(c)
				enter("'" + c + "'")
			}
		}
	}
	if sx.Param("end", 1) > 0 {
		zzAnswers <- zzTyped{err: io.EOF}
		<-zzEnded
		sx.Assert(engine.Resolve("r") == done, "the end of input runs something")
		b, err := os.ReadFile("/home/.oh-history")
		sx.Assert(err == nil, "no history is saved")
		sx.Assert(string(b) == strings.Join(typed, "\n")+"\n", "the history is not what was typed")
		sx.Reach("end")
	}
}
