package heng

import (
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/env"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

const nameChars = "!%*+-0123456789?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_abcdefghijklmnopqrstuvwxyz"

var templates = []string{
	"",           // every byte
	"$ab{}",      // references
	"$a{}- .\n",  // what ends them
	"$a\"\\{}n'", // quoting
	"$zZ09_^[",   // names
}

// expansion is what a template stands for.
func expansion(s string, value func(string) (string, bool)) (out string, ok, vague bool) {
	for i := 0; i < len(s); i++ {
		if s[i] != '$' || i+1 == len(s) {
			out += s[i : i+1]
			continue
		}
		name, end := "", i
		switch {
		case s[i+1] == '$':
			out += "$"
			i++
			continue
		case s[i+1] == '{':
			line := s[i+2:]
			if n := strings.IndexByte(line, '\n'); n >= 0 {
				line = line[:n]
			}
			n := strings.IndexByte(line, '}')
			if n == 0 {
				if strings.IndexByte(line[1:], '}') >= 0 {
					vague = true
				}
				n = -1
			}
			if n > 0 {
				name, end = line[:n], i+2+n
			}
		default:
			j := i + 1
			for j < len(s) && sx.In(s[j], nameChars) {
				j++
			}
			name, end = s[i+1:j], j-1
		}
		if name == "" {
			out += "$"
			continue
		}
		v, ok := value(name)
		if !ok {
			return "", false, vague
		}
		out += v
		i = end
	}
	return out, true, vague
}

// unescape is the text a double-quoted string holds.
func unescape(s string) (string, bool) {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			return "", false
		}
		if s[i] == '\\' {
			i++
			if i == len(s) {
				return "", false
			}
			switch s[i] {
			case '\\', '"', '\'':
				out += s[i : i+1]
			case 'n':
				out += "\n"
			default:
				return "", false
			}
			continue
		}
		out += s[i : i+1]
	}
	return out, true
}

// Interpolate checks that exactly the references in a text are replaced.
func Interpolate() {
	m := machine()
	t := sx.Str("text", sx.Choice("length", sx.Param("n", 3)+1))
	set := templates[sx.Param("set", 0)]
	for i := 0; i < len(t) && set != ""; i++ {
		sx.Assume(sx.In(t[i], set))
	}

	// The values, and where the names are defined.
	var va cell.I
	switch sx.Choice("value", 6) {
	case 0:
		va = str.New(sx.Str("a", sx.Choice("a.length", sx.Param("v", 2)+1)))
	case 1:
		va = str.New([]string{"$a", "${b}", "$$", "$1", "\\1${1}"}[sx.Choice("text", 5)])
	case 2:
		va = num.New("5/2")
	case 3:
		va = status.New("1")
	case 4:
		va = sym.New("$b")
	case 5:
		va = list.New(symbol("x"), symbol("y"))
	}
	text := map[string]string{"a": common.String(va), "b": "{$a}", "ab": "", "Z0": "q", "^": "w"}
	if va == nil || pair.Is(va) {
		text["a"] = "x y"
	}
	outerS := env.New(global)
	outerS.Export("b", str.New(text["b"]))
	outerS.Define("a", str.New("hidden"))
	m.S = env.New(outerS)
	m.F = m.frame()
	m.def("a", va)
	m.def("ab", str.New(""))
	m.def("Z0", str.New("q"))
	m.def("^", str.New("w"))

	used := t
	var cmd cell.I
	if sx.Param("quoted", 0) > 0 {
		var ok bool
		used, ok = unescape(t)
		sx.Assume(ok)
		cs := parse("list \"" + t + "\"\n")
		sx.Assert(len(cs) == 1, "a double-quoted string is no part of a command")
		cmd = cs[0]
	} else {
		cmd = list.New(symbol("list"), list.New(symbol("interpolate"), str.New(t)))
	}
	shells := false
	want, ok, vague := expansion(used, func(k string) (string, bool) {
		v, ok := text[k]
		// Names the shell itself defines are left out.
		if !ok && (global.Lookup(k) != nil || outer.Lookup(k) != nil) {
			shells = true
		}
		return v, ok
	})
	vague = vague || shells
	sx.Assume(!vague)
	r := m.in(m.F, cmd)
	_, bad := failed(r)
	if !ok {
		sx.Reach("unknown")
		sx.Assert(bad, "a reference to a name that is not defined is no error")
		return
	}
	sx.Assert(!bad, "text without unknown references is an error")
	r = pair.Car(r)
	sx.Assert(str.Is(r), "interpolation gives no string")
	sx.Assert(common.String(r) == want, "interpolation gives the wrong text")
	sx.Reach("text")
}
