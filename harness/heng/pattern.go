package heng

import (
	"os"
	"sort"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// element is one element of a pattern.
type element struct {
	kind   byte // '*', '?', '[' or 'c'
	c      byte
	negate bool
	ranges [][2]byte
}

// elements divides a pattern; it fails when the pattern is malformed.
func elements(p string) (es []element, ok bool) {
	char := func(i int) (byte, int, bool) {
		if i < len(p) && p[i] == '\\' {
			i++
		} else if i < len(p) && (p[i] == '-' || p[i] == ']') {
			return 0, 0, false
		}
		if i >= len(p) {
			return 0, 0, false
		}
		return p[i], i + 1, true
	}
	for i := 0; i < len(p); {
		switch p[i] {
		case '*', '?':
			es = append(es, element{kind: p[i]})
			i++
		case '\\':
			if i+1 == len(p) {
				return nil, false
			}
			es = append(es, element{kind: 'c', c: p[i+1]})
			i += 2
		case '[':
			e := element{kind: '['}
			i++
			if i < len(p) && p[i] == '^' {
				e.negate = true
				i++
			}
			for len(e.ranges) == 0 || i >= len(p) || p[i] != ']' {
				lo, n, ok := char(i)
				if !ok {
					return nil, false
				}
				hi := lo
				if n < len(p) && p[n] == '-' {
					if hi, n, ok = char(n + 1); !ok {
						return nil, false
					}
				}
				e.ranges = append(e.ranges, [2]byte{lo, hi})
				i = n
			}
			i++
			es = append(es, e)
		default:
			es = append(es, element{kind: 'c', c: p[i]})
			i++
		}
	}
	return es, true
}

// covers tells whether the elements describe s. Start is true where a name
// begins.
func covers(es []element, s string, start bool) bool {
	if len(es) == 0 {
		return s == ""
	}
	e := es[0]
	hidden := start && s != "" && s[0] == '.'
	if e.kind == '*' {
		if hidden {
			return false
		}
		if covers(es[1:], s, start) {
			return true
		}
		return s != "" && s[0] != '/' && covers(es, s[1:], false)
	}
	if s == "" {
		return false
	}
	c := s[0]
	switch e.kind {
	case '?':
		if hidden || c == '/' {
			return false
		}
	case 'c':
		if c != e.c {
			return false
		}
	case '[':
		in := false
		for _, r := range e.ranges {
			in = sx.Or(in, sx.And(r[0] <= c, c <= r[1]))
		}
		if hidden || in == e.negate {
			return false
		}
	}
	return covers(es[1:], s[1:], c == '/')
}

var patternSets = []string{"*?[a-c]^\\./x", "*?.a/", "[]^-\\abc", "*?ab"}

func bounded(name string, n int, set string) string {
	s := sx.Str(name, sx.Choice(name+".length", n+1))
	for i := 0; i < len(s); i++ {
		sx.Assume(sx.In(s[i], set))
	}
	return s
}

// Match checks that the match command agrees with the pattern language.
func Match() {
	m := machine()
	p := bounded("pattern", sx.Param("p", 3), patternSets[sx.Param("set", 0)])
	names := "abx./-^]"
	if sx.Param("any", 0) > 0 {
		names = "\x00\x01 !*?[\\~ab.\x7f\n$"
	}
	s := bounded("name", sx.Param("n", 3), names)
	r, _, bad := m.cmd(symbol("match"), str.New(p), str.New(s))
	es, ok := elements(p)
	if !ok {
		sx.Assert(bad || r == pair.Null, "a malformed pattern matches")
		if bad {
			sx.Reach("malformed")
		}
		return
	}
	sx.Assert(!bad, "a well-formed pattern is an error")
	if r != pair.Null {
		sx.Assert(r == sym.True, "match answers neither true nor false")
	}
	want := covers(es, s, true)
	sx.Assert(!want || r != pair.Null, "a name that the pattern describes does not match")
	sx.Assert(want || r == pair.Null, "a name that the pattern does not describe matches")
	if want {
		sx.Reach("match")
	} else {
		sx.Reach("different")
	}
}

// entries are the names in the directories files are generated from.
var entries = []string{".h", "a", "ab", "b*", "d/.x", "d/a", "d/y"}

func magic(p string) bool { return strings.ContainsAny(p, "*?[") }

// generated are the files a pattern stands for, in order.
func generated(p string) (out []string, ok bool) {
	parts := strings.Split(p, "/")
	dirs := []string{""}
	for i, q := range parts {
		es, good := elements(q)
		if !good {
			return nil, false
		}
		var next []string
		for _, d := range dirs {
			seen := map[string]bool{}
			for _, e := range entries {
				if !strings.HasPrefix(e, d) {
					continue
				}
				n := e[len(d):]
				sub := strings.IndexByte(n, '/')
				if sub >= 0 {
					n = n[:sub]
				} else if i < len(parts)-1 {
					continue
				}
				if !seen[n] && covers(es, n, true) {
					seen[n] = true
					if i < len(parts)-1 {
						n += "/"
					}
					next = append(next, d+n)
				}
			}
		}
		dirs = next
	}
	sort.Strings(dirs)
	return dirs, true
}

func files() (string, func()) {
	d, err := os.MkdirTemp("", "sx")
	if err != nil {
		panic(err.Error())
	}
	os.Mkdir(d+"/d", 0o755)
	for _, e := range entries {
		if err := os.WriteFile(d+"/"+e, nil, 0o644); err != nil {
			panic(err.Error())
		}
	}
	start := here()
	os.Chdir(d)
	return d, func() {
		os.Chdir(start)
		os.RemoveAll(d)
	}
}

// Names checks which file names symbols stand for in the arguments of glob.
func Names() {
	d, undo := files()
	defer undo()
	m := machine()
	m.S.Export("PWD", str.New(d))
	p := bounded("pattern", sx.Param("p", 3), []string{"*?[a]d/.", "*ad/.y", "\\[*?b-h]"}[sx.Param("set", 0)])
	sx.Assume(!strings.HasSuffix(p, "/") && !strings.HasPrefix(p, "/") && !strings.Contains(p, "//"))
	for _, q := range strings.Split(p, "/") {
		// . and .. are no names.
		sx.Assume(q != "." && q != ".." && q != "")
	}
	// A directory part is always taken as it is unless it holds a pattern.
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		sx.Assume(!strings.ContainsRune(p[:i], '\\'))
	}
	where := sx.Choice("where", 3)
	arg := p
	switch where {
	case 1:
		arg = d + "/" + p
	case 2:
		// The directory the pattern starts from is not the one it is in.
		m.S.Export("PWD", str.New(d+"/d"))
		arg = "../" + p
	}
	c := cell.I(sym.New(arg))
	if sx.Choice("string", 2) == 1 {
		c = str.New(arg)
	}
	r, _, bad := m.cmd(symbol("glob"), symbol("first"), c, symbol("last"))
	want := []string{arg}
	if sym.Is(c) && magic(p) {
		ns, ok := generated(p)
		if !ok || len(ns) == 0 {
			sx.Assert(bad, "a pattern that no file matches is no error")
			sx.Reach("none")
			return
		}
		want = ns
		switch where {
		case 1:
			want = nil
			for _, n := range ns {
				want = append(want, d+"/"+n)
			}
		case 2:
			want = nil
			for _, n := range ns {
				switch {
				case n == "d":
					n = "."
				case strings.HasPrefix(n, "d/"):
					n = n[2:]
				default:
					n = "../" + n
				}
				want = append(want, n)
			}
			sx.Reach("beside")
		}
		sx.Reach("names")
	} else {
		sx.Reach("plain")
	}
	sx.Assert(!bad, "generating names fails")
	r = must2(r, "first")
	for _, w := range want {
		sx.Assert(r != pair.Null && text(pair.Car(r)) == w, "the wrong file names are generated")
		r = pair.Cdr(r)
	}
	r = must2(r, "last")
	sx.Assert(r == pair.Null, "arguments are added")
}

func must2(r cell.I, s string) cell.I {
	sx.Assert(r != pair.Null && text(pair.Car(r)) == s, "an argument beside a pattern is changed")
	return pair.Cdr(r)
}
