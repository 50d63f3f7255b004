package hmain

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine"
	"github.com/michaelmacinnis/oh/internal/system/job"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// CompletionsSetup starts the shell among a few files.
func CompletionsSetup() {
	for _, d := range []string{"/home/d/d", "/home2", "/dd", "/.d/a"} {
		os.MkdirAll(d, 0o755)
	}
	for _, f := range []string{"/home/a", "/home/ab", "/home/.a", "/home/d/a", "/home/d/.b", "/home/d/d/a", "/home/é", "/home/éa", "/home2/a", "/a", "/.a", "/dd/a"} {
		os.WriteFile(f, nil, 0o644)
	}
	os.Symlink("d", "/home/l")
	os.Symlink("/", "/home/r")
	os.Symlink("/home/d/d", "/l")
	os.Chdir("/home")
	zzShell()
	if sx.Param("bash", 0) == 0 {
		// What bash would say costs much and is nothing here.
		zzType("define complete: method ((args)) {")
		zzType("return ()")
		zzType("}")
	}
}

// LinesSetup is the same.
func LinesSetup() { CompletionsSetup() }

func zzChars(name string, n int, set string) string {
	s := ""
	for i := 0; i < n; i++ {
		if set == "" || strings.Contains(set, "é") {
			if sx.Choice(name+"é", 2) == 1 {
				s += "é"
				continue
			}
		}
		c := sx.Str(name, 1)
		if set == "" {
			sx.Assume(c[0] < 0x80 && c[0] >= 0x20 && c[0] != 0x7f)
		} else {
			sx.Assume(sx.In(c[0], strings.ReplaceAll(set, "é", "")))
		}
		s += c
	}
	return s
}

// zzPressTab has the completer complete line at the cursor, as liner does.
func zzPressTab(line string, cursor int) (string, []string, string) {
	return zzComplete(line, utf8.RuneCountInString(line[:cursor]))
}

// zzKept checks that a completion only adds to the text.
func zzKept(text, rest, h, c, t string) {
	l := h + c + t
	sx.Assert(len(l) >= len(text)+len(rest), "the text typed gets shorter")
	sx.Assert(l[:len(text)] == text, "the text typed changes from "+text+" to "+l)
	sx.Assert(l[len(l)-len(rest):] == rest, "the text after the cursor changes")
}

// Lines checks that completing changes no line.
func Lines() {
	n := sx.Param("n", 2)
	set := []string{"", " ()'\"a", "a/~. é", "\\$#`{}|", "<>&|;a"}[sx.Param("set", 0)]
	text := zzChars("text", sx.Choice("length", n+1), set)
	rest := ""
	if sx.Param("rest", 1) > 0 {
		rest = []string{"", "b", "é", " b"}[sx.Choice("rest", 4)]
	}
	before := []string{"", "a ", "é ", "a {", "a (b "}[sx.Choice("before", sx.Param("before", 5))]
	text = before + text
	if open := []string{"", "a {", "a (b", "a 'b", "a \\"}[sx.Choice("open", sx.Param("open", 5))]; open != "" {
		zzType(open)
	}
	h, cs, t := zzPressTab(text+rest, len(text))
	for _, c := range cs {
		zzKept(text, rest, h, c, t)
		sx.Reach("completion")
	}
	sx.Reach("line")
}

// zzDenoted is the directory a word is in and the beginning of a name in it.
func zzDenoted(cwd, word string) (dir, base string) {
	dir, base = filepath.Split(word)
	switch {
	case word != "" && word[0] == '~':
		if dir == "" {
			base = base[1:]
		} else {
			dir = dir[1:]
		}
		dir = "/home/" + dir
	case dir == "" || dir[0] != '/':
		dir = cwd + "/" + dir
	}
	return
}

// Completions checks which file names are offered.
func Completions() {
	sx.Enter()
	cwd := []string{"/home", "/", "/home/d", "/home/l"}[sx.Choice("cwd", sx.Param("cwds", 4))]
	engine.System(job.New(0), list.New(sym.New("cd"), sym.New(cwd)))
	set := []string{"a./", "d/~.", "lr/a", "aé/u", "~/.2"}[sx.Param("set", 0)]
	word := zzChars("word", sx.Choice("length", sx.Param("n", 3)+1), set)
	word = sx.ConcreteStr(word)
	before := []string{"a ", "é ", "a (b ", "a b; c ", "a &&\tb "}[sx.Choice("before", sx.Param("before", 2))]
	rest := []string{"", "é"}[sx.Choice("rest", sx.Param("rests", 2))]
	sx.Leave()
	h, cs, t := zzPressTab(before+word+rest, len(before)+len(word))
	sx.Enter()

	// What should be offered.
	dir, base := zzDenoted(cwd, word)
	var want []string
	if st, err := os.Stat(dir); err == nil && st.IsDir() {
		es, err := os.ReadDir(dir)
		sx.Assert(err == nil, "no directory")
		for _, e := range es {
			k := e.Name()
			if !strings.HasPrefix(k, base) || k[0] == '.' && base == "" {
				continue
			}
			k = word + k[len(base):]
			if e.IsDir() {
				k += "/"
			}
			want = append(want, k)
		}
	}
	sx.Reach("word")
	for _, c := range cs {
		zzKept(before+word, rest, h, c, t)
		l := h + c + t
		l = l[len(before) : len(l)-len(rest)]
		if l == word && len(cs) == 1 && len(want) == 0 {
			sx.Reach("none")
			return
		}
		k := sort.SearchStrings(want, l)
		sx.Assert(k < len(want) && want[k] == l, "the word "+word+" in "+cwd+" is completed to "+l)
		sx.Reach("name")
	}
	sx.Assert(len(cs) == len(want), "some names are not offered for "+word+" in "+cwd)
}
