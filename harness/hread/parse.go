package hread

import (
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/struct/loc"
	"github.com/michaelmacinnis/oh/internal/common/struct/token"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/reader/parser"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// The grammar, written as "split at the operator that binds loosest", for
// comparison with the recursive descent parser.

// bad is text that is no command; vague is text whose meaning the
// documentation leaves open.
type (
	bad   struct{}
	vague struct{}
)

const assign = token.Class('=') // a symbol "="

// class of the tokens of a parse.
type lex struct {
	t  *token.T
	eq bool // the symbol "="
}

func (x lex) is(cs ...token.Class) bool { return x.t.Is(cs...) }

// depths returns the nesting depth before each token; it fails when the
// brackets do not match.
func match(ts []lex) []int {
	d := make([]int, len(ts)+1)
	var open []token.Class
	for i, t := range ts {
		switch {
		case t.is('('):
			open = append(open, ')')
		case t.is(token.MetaOpen):
			open = append(open, token.MetaClose)
		case t.is('{'):
			open = append(open, '}')
		case t.is(')', token.MetaClose, '}'):
			if len(open) == 0 || !t.is(open[len(open)-1]) {
				panic(bad{})
			}
			open = open[:len(open)-1]
		}
		d[i+1] = len(open)
	}
	if len(open) > 0 {
		panic(bad{})
	}
	return d
}

// split cuts ts at the operators of class c outside brackets.
func split(ts []lex, c token.Class) (parts [][]lex, ops []lex) {
	d := match(ts)
	from := 0
	for i, t := range ts {
		if d[i] == 0 && t.is(c) {
			parts = append(parts, ts[from:i])
			ops = append(ops, t)
			from = i + 1
		}
	}
	return append(parts, ts[from:]), ops
}

func operator(t lex) cell.I { return sym.Token(t.t) }

func must(c cell.I) cell.I {
	if c == nil {
		panic(bad{})
	}
	return c
}

// gCommand is the structure of a command.
func gCommand(ts []lex) cell.I {
	for _, c := range []token.Class{token.Orf, token.Andf} {
		parts, ops := split(ts, c)
		if len(ops) > 0 {
			l := pair.Cons(operator(ops[0]), pair.Null)
			for _, p := range parts {
				l = list.Append(l, must(gCommand(p)))
			}
			return l
		}
	}
	if parts, ops := split(ts, token.Pipe); len(ops) > 0 {
		// The first pipe has everything after it on its right.
		left, right := parts[0], ts[len(parts[0])+1:]
		return pair.Cons(operator(ops[0]), pair.Cons(must(gCommand(right)), must(gCommand(left))))
	}
	if parts, ops := split(ts, ';'); len(ops) > 0 {
		l := pair.Null
		for _, p := range parts {
			if c := gCommand(p); c != nil {
				l = list.Append(l, c)
			}
		}
		if l == pair.Null {
			return nil
		}
		return pair.Cons(sym.New("block"), l)
	}
	if parts, ops := split(ts, token.Redirect); len(ops) > 0 {
		n := len(ops)
		last := parts[n]
		return list.New(operator(ops[n-1]), gWord(last), must(gCommand(ts[:len(ts)-len(last)-1])))
	}
	if parts, ops := split(ts, token.Substitute); len(ops) > 0 {
		c := pair.Cons(sym.New("process-substitution"), must(gStatement(parts[0])))
		for i, p := range parts[1:] {
			if len(p) == 0 {
				panic(bad{})
			}
			if !p[0].is('(') {
				panic(vague{})
			}
			inner, rest := group(p)
			c = list.Append(c, pair.Cons(operator(ops[i]), orNull(gCommand(inner))))
			c = join(c, rest)
		}
		return c
	}
	return gStatement(ts)
}

func orNull(c cell.I) cell.I {
	if c == nil {
		return pair.Null
	}
	return c
}

// join adds the words of rest to the command c.
func join(c cell.I, rest []lex) cell.I {
	rest = trim(rest)
	if len(rest) == 0 {
		return c
	}
	if rest[0].is('{') || rest[0].is(token.Symbol) && len(rest) > 1 && rest[1].eq {
		panic(vague{})
	}
	return list.Join(c, gStatement(rest))
}

func trim(ts []lex) []lex {
	for len(ts) > 0 && ts[0].is(token.Space) {
		ts = ts[1:]
	}
	for len(ts) > 0 && ts[len(ts)-1].is(token.Space) {
		ts = ts[:len(ts)-1]
	}
	return ts
}

// group returns what is between the bracket at the start of ts and the one
// that closes it, and what follows.
func group(ts []lex) (inner, rest []lex) {
	d := match(ts)
	for i := 1; ; i++ {
		if d[i+1] == 0 {
			return ts[1:i], ts[i+1:]
		}
	}
}

// gElement is the element at the start of ts, if there is one.
func gElement(ts []lex) (cell.I, []lex) {
	if len(ts) == 0 {
		return nil, ts
	}
	t := ts[0]
	switch {
	case t.is(token.Symbol):
		return sym.Token(t.t), ts[1:]
	case t.is(token.SingleQuoted):
		v := t.t.Value()
		return str.New(v[1 : len(v)-1]), ts[1:]
	case t.is(token.DoubleQuoted):
		v := t.t.Value()
		return list.New(sym.New("interpolate"), str.New(v[1:len(v)-1])), ts[1:]
	case t.is(token.DollarSingleQuoted):
		v := t.t.Value()
		return str.New(v[2 : len(v)-1]), ts[1:]
	case t.is('('):
		inner, rest := group(ts)
		return orNull(gCommand(inner)), rest
	case t.is(token.MetaOpen):
		// None of the words here is the name of a meta command.
		panic(bad{})
	case t.is('`'):
		if len(ts) == 1 || ts[1].is('$', '`') {
			panic(bad{})
		}
		c, rest := gElement(ts[1:])
		return list.New(sym.New("splice"), list.New(sym.New("capture"), must(c))), rest
	case t.is('$'):
		if len(ts) > 1 && ts[1].is('{') {
			inner, rest := group(ts[1:])
			if len(inner) > 0 && inner[0].is('\n', '{') {
				panic(vague{})
			}
			return list.New(sym.New("resolve"), gWord(inner)), rest
		}
		if len(ts) > 1 && ts[1].is('`') {
			panic(bad{})
		}
		c, rest := gElement(ts[1:])
		return list.New(sym.New("resolve"), must(c)), rest
	}
	return nil, ts
}

// gJoined is the adjacent elements at the start of ts.
func gJoined(ts []lex) (cell.I, []lex) {
	c, rest := gElement(ts)
	if c == nil {
		return nil, ts
	}
	l := list.New(c)
	for {
		e, r := gElement(rest)
		if e == nil {
			break
		}
		l = list.Append(l, e)
		rest = r
	}
	if pair.Cdr(l) == pair.Null {
		return c, rest
	}
	return pair.Cons(sym.New("mend"), pair.Cons(sym.New(""), l)), rest
}

// gWord is a single word.
func gWord(ts []lex) cell.I {
	for len(ts) > 0 && ts[len(ts)-1].is(token.Space) {
		ts = ts[:len(ts)-1]
	}
	c, rest := gJoined(ts)
	if len(rest) > 0 {
		panic(bad{})
	}
	return must(c)
}

// gStatement is a simple command.
func gStatement(ts []lex) cell.I {
	ts = trim(ts)
	l := pair.Null
	for len(ts) > 1 && ts[0].is(token.Symbol) && ts[1].eq {
		v, rest := gJoined(ts[2:])
		l = list.Append(l, list.New(sym.New("export"), sym.Token(ts[0].t), must(v)))
		ts = trim(rest)
	}
	c := pair.Null
	if len(ts) > 0 && ts[0].is('{') {
		panic(vague{})
	}
	for len(ts) > 0 {
		if ts[0].is('{') {
			inner, rest := group(ts)
			switch {
			case len(inner) > 0 && inner[0].is('\n'):
				block, complete := gCommands(inner[1:], true)
				if !complete {
					panic(bad{})
				}
				for _, b := range block {
					c = list.Append(c, b)
				}
				c = join(c, rest)
				rest = nil
			case len(inner) > 0 && inner[0].is('{'):
				panic(vague{})
			default:
				w, after := gJoined(inner)
				if len(after) > 0 {
					panic(bad{})
				}
				c = list.Append(c, must(w))
			}
			ts = trim(rest)
			continue
		}
		w, rest := gJoined(ts)
		if w == nil {
			panic(bad{})
		}
		c = list.Append(c, w)
		ts = trim(rest)
	}
	if l != pair.Null {
		if c != pair.Null {
			l = list.Append(l, c)
		}
		return pair.Cons(sym.New("block"), l)
	}
	if c == pair.Null {
		return nil
	}
	return c
}

// gCommands is the commands in ts. Inside braces the last one needs no end.
func gCommands(ts []lex, braces bool) (cs []cell.I, complete bool) {
	open := 0
	from := 0
	for i, t := range ts {
		switch {
		case t.is('(', token.MetaOpen, '{'):
			open++
		case t.is(')', token.MetaClose, '}'):
			open--
		}
		ends := t.is('}') && open < 0
		if !ends && (open > 0 || !t.is('\n', token.Background)) {
			continue
		}
		c, ok := attempt(ts[from:i])
		if !ok {
			return cs, false
		}
		if t.is(token.Background) {
			if c == nil {
				return cs, false
			}
			c = list.New(operator(t), c)
		}
		if c != nil {
			cs = append(cs, c)
		}
		if ends {
			return cs, false
		}
		from = i + 1
	}
	if braces {
		c, ok := attempt(ts[from:])
		if !ok {
			return cs, false
		}
		if c != nil {
			cs = append(cs, c)
		}
		from = len(ts)
	}
	return cs, from == len(ts)
}

func attempt(ts []lex) (c cell.I, ok bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case bad:
		default:
			panic(r)
		}
	}()
	c = gCommand(ts)
	return c, true
}

// grammar returns the commands of ts up to the first that is not well-formed
// or complete.
func grammar(ts []lex) (cs []cell.I, complete, clear bool) {
	clear = true
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vague); !ok {
				panic(r)
			}
			clear = false
		}
	}()
	cs, complete = gCommands(ts, false)
	return
}

// same compares the structure of commands.
func same(a, b cell.I) bool {
	switch {
	case a == nil || b == nil:
		return false
	case a == pair.Null || b == pair.Null:
		return a == b
	case pair.Is(a):
		return pair.Is(b) && same(pair.Car(a), pair.Car(b)) && same(pair.Cdr(a), pair.Cdr(b))
	case sym.Is(a):
		if p, ok := b.(*sym.Plus); ok && sx.Param("places", 0) > 0 {
			// The place of a word is that of its token.
			q, ok := a.(*sym.Plus)
			sx.Assert(ok && *q.Source() == *p.Source(), "a word of a command has lost its place")
			sx.Reach("place")
		}
		return sym.Is(b) && sym.To(a).String() == sym.To(b).String()
	case str.Is(a):
		return str.Is(b) && str.To(a).String() == str.To(b).String()
	}
	return false
}

var vocabularies = [][]int32{
	{int32(token.Andf), int32(token.Background), int32(token.DollarSingleQuoted), int32(token.DoubleQuoted), int32(token.MetaClose), int32(token.MetaOpen), int32(token.Orf), int32(token.Pipe), int32(token.Redirect), int32(token.SingleQuoted), int32(token.Space), int32(token.Substitute), int32(token.Symbol), '\n', ')', '(', ';', '`', '{', '}', '$'},
	{int32(token.Andf), int32(token.Background), int32(token.Orf), int32(token.Pipe), int32(token.Redirect), int32(token.Symbol), ';'},
	{int32(token.Symbol), '$', '`', '(', ')', '{', '}', int32(token.Space)},
	{int32(token.Symbol), '{', '}', '\n', int32(token.Space), ';', int32(token.Background)},
	{int32(token.Symbol), '(', ')', int32(token.Pipe), ';', int32(token.Substitute), int32(token.Redirect)},
}

// Classes after which blanks and newlines are dropped, and blanks are.
var (
	afterWhite = []token.Class{'(', token.MetaOpen, token.Pipe, token.Orf, token.Andf, '\n'}
	afterBlank = []token.Class{token.Redirect, token.Substitute, token.Space, '$'}
)

type stop struct{}

func (stop) Error() string { return "(stop)" }

func oneOf(k int32, cs []token.Class) bool {
	b := false
	for _, c := range cs {
		b = sx.Or(b, k == int32(c))
	}
	return b
}

// Parse feeds sequences of tokens of any class the lexer can produce to the
// parser and compares the commands it emits with the grammar.
func Parse() {
	n := sx.Param("n", 4)
	vocabulary := vocabularies[sx.Param("set", 0)]
	var fed []lex
	prev := int32('\n')
	item := func() *token.T {
		i := len(fed)
		src := &loc.T{Name: "t", Line: 1, Char: i, Text: "t"}
		if i > n || i == n && oneOf(prev, afterWhite) {
			panic(stop{})
		}
		k := int32('\n')
		if i < n {
			c := sx.Byte("class")
			sx.Assume(int(c) < len(vocabulary))
			k = sx.Table(c, vocabulary)
			// What the lexer can produce after the last token.
			switch {
			case oneOf(prev, afterWhite):
				sx.Assume(sx.And(k != int32(token.Space), k != '\n'))
			case prev == '$':
				sx.Assume(sx.Or(k == int32(token.Symbol), k == '{'))
			case oneOf(prev, afterBlank):
				sx.Assume(k != int32(token.Space))
			}
		}
		prev = k
		x := lex{}
		value := "$'" + string(rune('a'+i)) + "'"
		if i > 0 && sx.Param("assign", 0) > 0 && k == int32(token.Symbol) && sx.Bool("=") {
			value = "="
			x.eq = true
		}
		x.t = token.New(token.Class(k), value, src)
		fed = append(fed, x)
		return x.t
	}

	var got []cell.I
	p := parser.New(func(c cell.I) { got = append(got, c) }, item)
	err := p.Parse()
	sx.Assert(err != nil, "parsing ends before the text")
	waits := err == error(stop{})

	want, complete, clear := grammar(fed)
	if !clear {
		sx.Reach("vague")
		return
	}
	for i, c := range got {
		sx.Assert(c != nil, "an empty command")
		sx.Assert(i < len(want), "a command that is not in the text")
		sx.Assert(same(c, want[i]), "a command has the wrong structure")
	}
	sx.Assert(len(got) == len(want), "a command is lost")
	if complete {
		sx.Assert(waits, "well-formed text is an error")
		sx.Reach("commands")
	} else if !waits {
		sx.Reach("error")
	} else {
		sx.Reach("waits")
	}
}
