package heng

import (
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// where is the trace entry for the code at index i of src.
func where(src string, i int) string {
	start := strings.LastIndexByte(src[:i], '\n') + 1
	end := i + strings.IndexByte(src[i:], '\n')
	line := 1 + strings.Count(src[:i], "\n")
	return "test:" + strconv.Itoa(line) + ":" + strconv.Itoa(i-start+1) + ": " + src[i:end]
}

// Traces checks that the trace of an error leads to the commands that failed.
func Traces() {
	m := machine()
	var got []string
	m.def("record", native(func(t *task.T) task.Op {
		for l := pair.Car(t.Code()); l != pair.Null; l = pair.Cdr(l) {
			got = append(got, common.String(pair.Car(l)))
		}
		t.ReplaceResult(list.New(failure, pair.Null))
		return nil
	}))
	m.must("export throw: method (msg) {\n    record (trace)\n}\n")

	fillers := []string{"", "\n", "# comment\n", "list 'a\nb'\n", "list a \\\n    b\n", "block {\n    list\n}\n"}
	all := sx.Param("all", 0) > 0
	at := sx.Choice("where", 4)
	filler := func() string {
		at--
		if at != -1 && !all {
			return ""
		}
		return fillers[sx.Choice("filler", len(fillers))]
	}
	calls := []string{"%", "list; %", "list (%) x", "if true {\n        %\n        list\n    }", "set x: %", "%; list", "while true {\n    list\n  %\n}"}
	last := false // the call is the last command of a block
	call := func(c string) string {
		n := sx.Choice("call", len(calls))
		f := calls[n]
		last = n == 1 || n == 6
		i := strings.IndexByte(f, '%')
		return f[:i] + c + f[i+1:]
	}
	src := filler() + "define x 0\ndefine f: method () {\n" + filler() + "    " + call("add 1 foo") + "\n    list\n}\n" +
		"define g: method () {\n    list\n" + filler() + "    " + call("\x01f") + "\n    list\n}\n" + filler() + "block {\n    g\n    list\n}\n"
	call2 := strings.IndexByte(src, 1)
	src = src[:call2] + src[call2+1:]
	_, _, bad := m.eval(src)
	sx.Assert(bad, "the error is lost")

	sx.Assert(len(got) > 0, "an error without a trace")
	seen := false
	for _, s := range got {
		seen = seen || s == where(src, call2)
	}
	sx.Assert(seen || last, "the trace leaves out a caller")
	// The outermost command and the caller are in it too.
	sx.Assert(got[0] == where(src, strings.LastIndex(src, "g\n")), "the trace does not start with the outermost command")
	sx.Assert(got[len(got)-1] == where(src, strings.Index(src, "add 1 foo")), "the trace does not end with the command that failed")
	text := strings.Split(src, "\n")
	for _, s := range got {
		// Every entry quotes the line it names.
		parts := strings.SplitN(s, ":", 4)
		sx.Assert(len(parts) == 4 && parts[0] == "test", "a trace entry without a place")
		line, _ := strconv.Atoi(parts[1])
		col, _ := strconv.Atoi(parts[2])
		sx.Assert(line >= 1 && line <= len(text) && col >= 1 && col <= len(text[line-1]), "a trace entry names no place in the text")
		sx.Assert(" "+text[line-1][col-1:] == parts[3], "a trace entry does not quote its line")
	}
	sx.Reach("trace")
}
