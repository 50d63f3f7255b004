// Package hread checks the lexer, the parser and the reader.
package hread

import (
	"strings"
	"unicode/utf8"

	"github.com/michaelmacinnis/oh/internal/common/struct/token"
	"github.com/michaelmacinnis/oh/internal/reader/lexer"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// tok is a token as the lexical rules define it.
type tok struct {
	c     token.Class
	v     string
	start int // index of its first byte
	end   int // index after its last byte
}

// operators, longest first.
var operators = []struct {
	text string
	c    token.Class
	name string
	next int
}{
	{">>&", token.Redirect, "append-output-errors-to", blanks},
	{">&|", token.Redirect, "output-errors-clobbers", blanks},
	{">>", token.Redirect, "append-output-to", blanks},
	{">&", token.Redirect, "output-errors-to", blanks},
	{">|", token.Redirect, "output-clobbers", blanks},
	{"|<", token.Substitute, "-named-pipe-input-from", blanks},
	{"|>", token.Substitute, "-named-pipe-output-to", blanks},
	{"||", token.Orf, "or", white},
	{"|&", token.Pipe, "pipe-output-errors-to", white},
	{"|)", token.MetaClose, "|)", significant},
	{"&&", token.Andf, "and", white},
	{"(|", token.MetaOpen, "(|", white},
	{">", token.Redirect, "output-to", blanks},
	{"<", token.Redirect, "input-from", blanks},
	{"|", token.Pipe, "pipe-output-to", white},
	{"&", token.Background, "spawn", significant},
	{"(", '(', "(", white},
	{")", ')', ")", significant},
	{";", ';', ";", significant},
	{"`", '`', "`", significant},
	{"{", '{', "{", significant},
	{"}", '}', "}", significant},
}

// What blanks mean after a token.
const (
	significant = iota // they are a token, or end the line
	blanks             // blanks are dropped
	white              // blanks and newlines are dropped
)

const endsWord = "\t\n \"#&'();<>`{|}"

// rules splits text into tokens by the lexical rules. The text ends with a
// newline. What follows the last complete token is left out.
func rules(s string) []tok {
	var out []tok
	mode := white
	i := 0
	add := func(c token.Class, v string, from, to int) {
		out = append(out, tok{c, v, from, to})
	}
	for i < len(s) {
		// Blanks.
		from := i
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
		if i == len(s) {
			return out
		}
		if mode == significant && i > from && s[i] != '\n' && s[i] != '#' {
			add(token.Space, s[from:i], from, i)
			mode = blanks
		}
		switch {
		case s[i] == '\\' && i+1 < len(s) && s[i+1] == '\n':
			i += 2
			if mode == significant {
				mode = blanks
			}
			continue
		case s[i] == '\n':
			i++
			if mode != white {
				add('\n', "", i-1, i)
				mode = white
			}
			continue
		case s[i] == '#':
			for s[i] != '\n' {
				i++
			}
			add('\n', "", from, i+1)
			i++
			mode = white
			continue
		}
		from = i
		// Quoted strings.
		if s[i] == '\'' || s[i] == '"' || s[i] == '$' && i+1 < len(s) && s[i+1] == '\'' {
			c, escapes := token.SingleQuoted, false
			switch s[i] {
			case '"':
				c, escapes = token.DoubleQuoted, true
			case '$':
				c, escapes = token.DollarSingleQuoted, true
				i++
			}
			quote := s[i]
			i++
			for i < len(s) && s[i] != quote {
				if escapes && s[i] == '\\' {
					i++
					if i < len(s) {
						_, w := utf8.DecodeRuneInString(s[i:])
						i += w
					}
					continue
				}
				i++
			}
			if i >= len(s) {
				return out // never ends
			}
			i++
			add(c, s[from:i], from, i)
			mode = significant
			continue
		}
		// Operators.
		found := false
		for _, o := range operators {
			if strings.HasPrefix(s[i:], o.text) {
				i += len(o.text)
				add(o.c, o.name, from, i)
				mode = o.next
				found = true
				break
			}
		}
		if found {
			continue
		}
		mode = significant
		switch {
		case s[i] == '$':
			i++
			switch {
			case i == len(s):
				return out
			case s[i] == '$':
				add('$', "$", from, i)
				i++
				add(token.Symbol, "$", i-1, i)
			case s[i] != '{' && s[i] != '\'' && sx.In(s[i], endsWord):
				add(token.Symbol, "$", from, i)
			default:
				add('$', "$", from, i)
			}
			continue
		case sx.In(s[i], ",./:=@~"):
			i++
			add(token.Symbol, s[from:i], from, i)
			continue
		}
		// Words.
		for i < len(s) && !sx.In(s[i], endsWord+",./:=@~$") {
			if s[i] == '\\' {
				i++
				if i == len(s) {
					return out
				}
			}
			_, w := utf8.DecodeRuneInString(s[i:])
			i += w
		}
		if i == len(s) {
			return out
		}
		add(token.Symbol, s[from:i], from, i)
	}
	return out
}

// drain takes every token available.
func drain(l *lexer.T, max int) []*token.T {
	var out []*token.T
	for t := l.Token(); t != nil; t = l.Token() {
		out = append(out, t)
		sx.Assert(len(out) <= max, "more tokens than characters")
	}
	return out
}

// significantly leaves out blanks at the start and the end of a line and
// newlines that follow newlines.
func newline(t *token.T) bool { return t.Is('\n') }

func classes(ts []*token.T) []*token.T {
	var out []*token.T
	for i, t := range ts {
		if t.Is(token.Space) {
			if i == 0 || newline(ts[i-1]) || i+1 < len(ts) && newline(ts[i+1]) {
				continue
			}
		}
		if newline(t) && (len(out) == 0 || newline(out[len(out)-1])) {
			continue
		}
		out = append(out, t)
	}
	return out
}

func classesT(ts []tok) []tok {
	var out []tok
	for i, t := range ts {
		if t.c == token.Space {
			if i == 0 || ts[i-1].c == '\n' || i+1 < len(ts) && ts[i+1].c == '\n' {
				continue
			}
		}
		if t.c == '\n' && (len(out) == 0 || out[len(out)-1].c == '\n') {
			continue
		}
		out = append(out, t)
	}
	return out
}

// text is an arbitrary text of up to n bytes, from an alphabet chosen by the
// parameter "set", with a newline at the end.
func text(n int) string {
	s := sx.Str("text", sx.Choice("length", n+1))
	set := alphabets[sx.Param("set", 0)]
	if set != "" {
		for i := 0; i < len(s); i++ {
			sx.Assume(sx.In(s[i], set))
		}
	}
	return s + "\n"
}

var alphabets = []string{
	"",              // every byte
	"&|<>() a",      // operators
	"'\"\\$# \na",   // quoting
	"\\\n #a'&",     // continuation and comments
	"${}'a,; `",     // references and braces
	"a=:\n \\;\xc3", // words
	"\n'\\ a#",      // lines
	"a \n&'\xc3\xa9",
	"'\n a",
	"a;&\n|",
	"a (){}\n",
	"`$'\"\na;",
	"a> \\\n;#",
}

// lines splits a text after its newlines.
func lines(s string) []string {
	var out []string
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[from:i+1])
			from = i + 1
		}
	}
	if from < len(s) {
		out = append(out, s[from:])
	}
	return out
}

// Lex checks that a text is split into tokens as the rules say.
func Lex() {
	s := text(sx.Param("n", 3))
	l := lexer.New("src")
	l.Scan(s)
	got := classes(drain(l, len(s)+1))
	want := classesT(rules(s))
	for i, t := range got {
		sx.Assert(i < len(want), "a token too many")
		w := want[i]
		sx.Assert(t.Is(w.c), "a token of the wrong kind")
		if w.c != '\n' {
			sx.Assert(t.Value() == w.v, "a token with the wrong text")
		}
	}
	sx.Assert(len(got) == len(want), "a token is missing")
	sx.Reach("lex")
}

// Places checks the source, line, column and text of every token.
func Places() {
	s := text(sx.Param("n", 3))
	l := lexer.New("src")
	var got []*token.T
	pieces := lines(s)
	if len(pieces) > 1 && sx.Choice("at once", 2) == 1 {
		pieces = []string{s}
	}
	for _, piece := range pieces {
		l.Scan(piece)
		got = append(got, drain(l, len(s)+1)...)
	}
	got = classes(got)
	want := classesT(rules(s))
	sx.Assert(len(got) == len(want), "the wrong number of tokens")
	for i, t := range got {
		w := want[i]
		src := t.Source()
		sx.Assert(src.Name == "src", "a token has the wrong source")
		line, col := 1, 0
		for j := 0; j < w.end-1; j++ {
			if s[j] == '\n' {
				line++
			}
		}
		if w.c != '\n' && s[w.end-1] == '\n' {
			continue // a word that ends with a protected newline
		}
		sx.Assert(src.Line == line, "a token has the wrong line")
		if w.c == '\n' || strings.IndexByte(s[w.start:w.end], '\n') >= 0 {
			continue
		}
		for col = w.start; col > 0 && s[col-1] != '\n'; col-- {
		}
		end := w.end
		for end < len(s) && s[end] != '\n' {
			end++
		}
		sx.Assert(src.Char == 1+utf8.RuneCountInString(s[col:w.start]), "a token has the wrong column")
		if len(pieces) == 1 && len(lines(s)) > 1 {
			// The text goes on after the line.
			sx.Assert(strings.HasPrefix(src.Text, s[w.start:end]), "a token has the wrong line text")
			sx.Reach("once")
			continue
		}
		sx.Assert(src.Text == s[w.start:end], "a token has the wrong line text")
		sx.Reach("column")
	}
	sx.Reach("places")
}

// Pieces checks that how a text is divided does not change its tokens.
func Pieces() {
	s := text(sx.Param("n", 3))
	whole := lexer.New("src")
	whole.Scan(s)
	want := drain(whole, len(s)+1)

	l := lexer.New("src")
	var got []*token.T
	from := 0
	for p := 0; p < sx.Param("cuts", 2); p++ {
		to := from + sx.Choice("cut", len(s)-from+1)
		l.Scan(s[from:to])
		switch sx.Choice("take", 2+sx.Param("one", 0)) {
		case 0:
			got = append(got, drain(l, len(s)+1)...)
		case 2:
			// Take one token only.
			if t := l.Token(); t != nil {
				got = append(got, t)
			}
		}
		from = to
	}
	l.Scan(s[from:])
	got = append(got, drain(l, len(s)+1)...)
	sx.Assert(len(got) == len(want), "dividing the text changes the number of tokens")
	for i, t := range got {
		w := want[i]
		// Leading blanks of a comment are no part of its newline.
		same := t.Value() == w.Value()
		sx.Assert(t.Is(token.Class('\n')) && w.Is(token.Class('\n')) || same, "dividing the text changes a token")
		sx.Assert(kind(t) == kind(w), "dividing the text changes the kind of a token")
		sx.Assert(t.Source().Line == w.Source().Line, "dividing the text changes the line of a token")
	}
	sx.Reach("pieces")
}

var kinds = []token.Class{token.Andf, token.Background, token.DollarSingleQuoted, token.DoubleQuoted, token.MetaClose, token.MetaOpen, token.Orf, token.Pipe, token.Redirect, token.SingleQuoted, token.Space, token.Substitute, token.Symbol, '\n', ')', '(', ';', '`', '{', '}', '$'}

func kind(t *token.T) int {
	for i, c := range kinds {
		if t.Is(c) {
			return i
		}
	}
	return -1
}
