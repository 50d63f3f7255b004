package hread

import (
	"strings"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/struct/token"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/reader"
	"github.com/michaelmacinnis/oh/internal/reader/lexer"
	"github.com/michaelmacinnis/oh/internal/reader/parser"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// commands parses a text at once. The error is nil when all that follows the
// last command is the start of another.
func commands(s string) (cs []cell.I, err error) {
	cs, _, err = whole(s)
	return
}

// whole also returns whether nothing follows the last command: what comes next
// is then a command of its own.
func whole(s string) (cs []cell.I, idle bool, err error) {
	cs, err = every(s)
	if err != nil {
		return
	}
	w, werr := every(s + "zz zz\n")
	idle = werr == nil && len(w) == len(cs)+1 && same(w[len(cs)], list.New(sym.New("zz"), sym.New("zz")))
	return
}

// every returns the commands in a text.
func every(s string) (cs []cell.I, err error) {
	l := lexer.New("src")
	l.Scan(s)
	p := parser.New(func(c cell.I) { cs = append(cs, c) }, func() *token.T {
		t := l.Token()
		if t == nil {
			panic(stop{})
		}
		return t
	})
	err = p.Parse()
	if err == error(stop{}) {
		err = nil
	}
	return
}

// Reader checks that the commands the reader gives for each piece of a text
// are those that the text up to there completes.
func Reader() {
	s := text(sx.Param("n", 3))
	rd := reader.New("src")
	from, n := 0, 0
	for p := 0; p <= sx.Param("cuts", 1) && from < len(s); p++ {
		to := len(s)
		if p < sx.Param("cuts", 1) {
			to = from + sx.Choice("cut", len(s)-from) + 1
		}
		want, idle, werr := whole(s[:to])
		got, err := rd.Scan(s[from:to])
		if werr != nil {
			sx.Assert(err != nil, "malformed text is accepted when divided")
			sx.Reach("error")
			return
		}
		sx.Assert(err == nil, "dividing well-formed text makes it an error")
		if !idle {
			// The commands before one that is open wait with it.
			sx.Assert(got == nil, "a command is run while another is open")
			from = to
			sx.Reach("open")
			continue
		}
		var w cell.I
		switch k := len(want) - n; {
		case k == 1:
			w = want[n]
		case k > 1:
			w = pair.Cons(sym.New("block"), list.New(want[n:]...))
		}
		if w == nil {
			sx.Assert(got == nil, "a command is run before it is complete, or twice")
		} else {
			sx.Assert(got != nil, "a complete command is lost")
			sx.Assert(same(got, w), "dividing the text changes a command")
			sx.Reach("command")
		}
		from, n = to, len(want)
	}
	sx.Reach("waits")
}

// Complete checks that analysing a partial line leaves the reader as it was.
func Complete() {
	s := text(sx.Param("n", 3))
	h := sx.Str("typed", sx.Choice("typed", sx.Param("m", 2)+1))
	set := alphabets[sx.Param("set", 0)]
	for i := 0; i < len(h) && set != ""; i++ {
		sx.Assume(sx.In(h[i], set))
	}
	cut := sx.Choice("cut", len(s))
	rd := reader.New("src")
	_, err := rd.Scan(s[:cut])
	if err != nil {
		return
	}

	// The analysis that the completer does.
	lc := rd.Lexer().Copy()
	lc.Scan(h)
	var seen []*token.T
	lp := rd.Parser().Copy(func(cell.I) {}, func() *token.T {
		t := lc.Token()
		if t != nil {
			seen = append(seen, t)
		}
		return t
	})
	_ = lp.Parse()

	// The copy starts where the original is.
	if sx.Choice("then", 2) == 0 {
		l := lexer.New("src")
		l.Scan(s[:cut])
		drain(l, len(s)+1)
		l.Scan(h)
		for i, t := range seen {
			w := l.Token()
			sx.Assert(w != nil, "the copy has a token too many")
			sx.Assert(t.Value() == w.Value() && kind(t) == kind(w), "the copy has a different token")
			sx.Assert(t.Source().Line == w.Source().Line && t.Source().Char == w.Source().Char, "the copy has a token at another place")
			sx.Assert(i < len(h)+len(s), "too many tokens")
			sx.Reach("token")
		}
		return
	}

	// The original goes on as if there had been no copy.
	before, idle, _ := whole(s[:cut])
	if !idle {
		before = nil // They wait for the one that is open.
	}
	want, idle, werr := whole(s)
	got, err := rd.Scan(s[cut:])
	if werr != nil {
		sx.Assert(err != nil, "completion makes malformed text acceptable")
		sx.Reach("error")
		return
	}
	sx.Assert(err == nil, "completion makes well-formed text an error")
	switch k := len(want) - len(before); {
	case k == 0 || !idle:
		sx.Assert(got == nil, "completion adds a command")
	case k == 1:
		sx.Assert(got != nil && same(got, want[len(before)]), "completion changes the command")
		sx.Reach("command")
	default:
		sx.Assert(got != nil && same(pair.Cdr(got), list.New(want[len(before):]...)), "completion changes the commands")
	}
}

// Typed checks the words reported for a command being typed.
func Typed() {
	before := []string{"", "a b; ", "a b | ", "a b && ", "a || ", "a & ", "a (", "a (b) (", "if a {\n    ", "x=1 ", "a (b; c) ; "}
	s := before[sx.Choice("before", len(before))]
	words := []struct {
		text string
		c    func() cell.I
	}{
		{"u", func() cell.I { return sym.New("u") }},
		{"-v", func() cell.I { return sym.New("-v") }},
		{"(w x)", func() cell.I { return list.New(sym.New("w"), sym.New("x")) }},
		{"$y", func() cell.I { return list.New(sym.New("resolve"), sym.New("y")) }},
		{"z{c}", nil},
	}
	want := pair.Null
	n := sx.Choice("words", sx.Param("n", 2)+1)
	for i := 0; i < n; i++ {
		w := words[sx.Choice("word", len(words))]
		s += w.text + strings.Repeat(" ", 1+sx.Choice("blanks", 2))
		if w.c == nil {
			want = list.Append(want, sym.New("z"), sym.New("c"))
		} else {
			want = list.Append(want, w.c())
		}
	}
	if n > 0 {
		// The word being completed.
		s += []string{"", "pq"}[sx.Choice("partial", 2)]
	}

	if n == 0 && strings.HasSuffix(s, "(") {
		return // what follows decides whether this is a bracket of its own
	}

	rd := reader.New("src")
	if i := strings.LastIndexByte(s, '\n') + 1; i > 0 {
		// Only the current line is analysed.
		_, err := rd.Scan(s[:i])
		sx.Assert(err == nil, "an open command is an error")
		s = s[i:]
	}
	lc := rd.Lexer().Copy()
	lc.Scan(s)
	lp := rd.Parser().Copy(func(cell.I) {}, lc.Token)
	_ = lp.Parse()
	got := lp.Current()
	sx.Assert(got != nil && same(got, want), "the wrong command words are reported")
	sx.Reach("typed")
}
