package heng

import (
	"strconv"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Kinds of control structure.
const (
	cProbe = iota
	cBlock
	cIf
	cIfElse
	cElseIf
	cElseIfElse
	cElseIf3
	cWhile
	cAnd
	cOr
	cNot
)

// ctl is a program made of control structures around probes.
type ctl struct {
	kind int
	id   int
	kids []*ctl // conditions and bodies, in the order they are written
	pro  int    // what a body does before its command: 0 nothing, 1 define v, 2 set v
	tail bool   // a body ends with its command
}

var ctlIDs int

func probe() *ctl {
	ctlIDs++
	return &ctl{id: ctlIDs}
}

// forms lists, for every structure, its operands: c a condition, b a body.
var forms = []struct {
	kind int
	ops  string
}{
	{cBlock, "b"}, {cBlock, ""}, {cIf, "cb"}, {cIfElse, "cbb"}, {cElseIf, "cbcb"}, {cElseIfElse, "cbcbb"}, {cElseIf3, "cbcbcb"},
	{cWhile, "cb"}, {cAnd, ""}, {cAnd, "c"}, {cAnd, "cc"}, {cAnd, "ccc"}, {cOr, ""}, {cOr, "c"}, {cOr, "cc"}, {cOr, "ccc"}, {cNot, "c"},
}

// genCtl makes any control structure; at most one operand of each has
// structure itself.
func genCtl(depth int, simple bool) *ctl {
	if depth == 0 {
		return probe()
	}
	f := forms[sx.Choice("form", len(forms))]
	ctlIDs++
	n := &ctl{kind: f.kind, id: ctlIDs}
	deep := -1
	if len(f.ops) > 0 && depth > 1 {
		deep = sx.Choice("deep", len(f.ops))
	}
	if len(f.ops) == 0 && depth > 1 {
		sx.Assume(false) // covered at a lesser depth
	}
	for i := range f.ops {
		var k *ctl
		if i == deep {
			k = genCtl(depth-1, simple)
		} else {
			k = probe()
		}
		if f.ops[i] == 'b' {
			if i == deep || depth == 1 && i == 1 {
				k = &ctl{kind: -1, kids: []*ctl{k}}
				if simple {
					k.pro, k.tail = 1, sx.Choice("tail", 2) == 1
				} else {
					k.pro, k.tail = sx.Choice("pro", 3), sx.Choice("tail", 2) == 1
				}
			} else {
				k = &ctl{kind: -1, kids: []*ctl{k}, pro: 1, tail: true}
			}
			ctlIDs++
			k.id = ctlIDs
		}
		n.kids = append(n.kids, k)
	}
	return n
}

func number(n int) cell.I { return num.New(strconv.Itoa(n)) }

// code is the command that runs n.
func (n *ctl) code() cell.I {
	k := func(i int) cell.I { return n.kids[i].code() }
	b := func(i int, more ...cell.I) []cell.I {
		return append(n.kids[i].body(), more...)
	}
	cs := func(a ...cell.I) []cell.I { return a }
	els := symbol("else")
	iff := symbol("if")
	switch n.kind {
	case cProbe:
		return list.New(symbol("probe"), number(n.id))
	case cBlock:
		if len(n.kids) == 0 {
			return list.New(symbol("block"))
		}
		return list.New(append(cs(symbol("block")), b(0)...)...)
	case cIf:
		return list.New(append(cs(iff, k(0)), b(1)...)...)
	case cIfElse:
		return list.New(append(cs(iff, k(0)), append(b(1, els), b(2)...)...)...)
	case cElseIf:
		return list.New(append(cs(iff, k(0)), append(b(1, els, iff, k(2)), b(3)...)...)...)
	case cElseIfElse:
		return list.New(append(cs(iff, k(0)), append(b(1, els, iff, k(2)), append(b(3, els), b(4)...)...)...)...)
	case cElseIf3:
		return list.New(append(cs(iff, k(0)), append(b(1, els, iff, k(2)), append(b(3, els, iff, k(4)), b(5)...)...)...)...)
	case cWhile:
		return list.New(append(cs(symbol("while"), k(0)), b(1)...)...)
	}
	cmd := []cell.I{symbol([]string{"and", "or", "not"}[n.kind-cAnd])}
	for i := range n.kids {
		cmd = append(cmd, k(i))
	}
	return list.New(cmd...)
}

// body is the commands of a body.
func (n *ctl) body() []cell.I {
	var cs []cell.I
	switch n.pro {
	case 1:
		cs = append(cs, list.New(symbol("define"), symbol("v"), number(n.id)))
	case 2:
		cs = append(cs, list.New(symbol("set"), symbol("v"), number(n.id)))
	}
	cs = append(cs, n.kids[0].code())
	if !n.tail {
		cs = append(cs, list.New(symbol("probe"), number(1000+n.id)))
	}
	return cs
}

// event is a command that ran and the value of v it saw.
type event struct {
	id, v int
	val   cell.I // what it returned
}

// ctlModel says what a program does.
type ctlModel struct {
	log  []event // what happened
	next int
	v    []int // value of v in each scope, innermost last; 0 is none
}

func (o *ctlModel) see() int {
	for i := len(o.v) - 1; i >= 0; i-- {
		if o.v[i] != 0 {
			return o.v[i]
		}
	}
	return 0
}

func (o *ctlModel) probe(id int) cell.I {
	sx.Assert(o.next < len(o.log), "a command is not run")
	e := o.log[o.next]
	o.next++
	sx.Assert(e.id == id, "a command is run instead of another")
	sx.Assert(e.v == o.see(), "a command sees another value of a variable")
	return e.val
}

// truth is the truth of the value of a probe.
func truth(c cell.I) bool {
	switch c := c.(type) {
	case nil:
		sx.Assume(false) // no value is specified
	case *num.T:
		return c.Rat().Sign() != 0
	case *status.T:
		return c.Rat().Sign() == 0
	}
	return c != pair.Null
}

// run is what n does; it returns its value, or nil if none is specified.
func (o *ctlModel) run(n *ctl) cell.I {
	scoped := func(f func()) {
		o.v = append(o.v, 0)
		f()
		o.v = o.v[:len(o.v)-1]
	}
	var r cell.I
	switch n.kind {
	case cProbe:
		return o.probe(n.id)
	case cBlock:
		if len(n.kids) == 0 {
			return pair.Null
		}
		scoped(func() { r = o.body(n.kids[0]) })
		return r
	case cIf, cIfElse, cElseIf, cElseIfElse, cElseIf3:
		scopes := 0
		for k := n.kids; len(k) > 0; {
			if len(k) == 1 { // else
				r = o.body(k[0])
				break
			}
			o.v = append(o.v, 0)
			scopes++
			if truth(o.run(k[0])) {
				r = o.body(k[1])
				break
			}
			k = k[2:]
		}
		o.v = o.v[:len(o.v)-scopes]
		return r
	case cWhile:
		scoped(func() {
			for truth(o.run(n.kids[0])) {
				o.body(n.kids[1])
			}
		})
		return nil
	case cAnd, cOr:
		r = pair.Null
		for _, k := range n.kids {
			r = o.run(k)
			if truth(r) != (n.kind == cAnd) {
				break
			}
		}
		return r
	}
	if truth(o.run(n.kids[0])) {
		return pair.Null
	}
	return sym.True
}

func (o *ctlModel) body(n *ctl) cell.I {
	switch n.pro {
	case 1:
		o.v[len(o.v)-1] = n.id
	case 2:
		for i := len(o.v) - 1; i >= 0; i-- {
			if o.v[i] != 0 {
				o.v[i] = n.id
				break
			}
		}
	}
	r := o.run(n.kids[0])
	if !n.tail {
		r = o.probe(1000 + n.id)
	}
	return r
}

// Control checks that control structures run exactly the commands they
// should, whatever the values of their conditions.
func Control() {
	m := machine()
	limit := sx.Param("limit", 6)
	n := genCtl(sx.Param("depth", 1), sx.Param("simple", 0) > 0)
	var log []event
	m.def("probe", native(func(t *task.T) task.Op {
		id, _ := strconv.Atoi(pair.Car(t.Code()).(*num.T).String())
		v, _ := strconv.Atoi(t.CellValue("v").(*num.T).String())
		sx.Assume(len(log) < limit)
		val := cell.I(num.Rat(sx.Rat("value")))
		if id == 2 && sx.Param("status", 0) > 0 {
			val = status.New("0")
		}
		log = append(log, event{id, v, val})
		return t.Return(val)
	}))
	m.def("v", number(9))
	o := &ctlModel{v: []int{9}}

	r := m.in(m.F, list.New(symbol("list"), n.code(), list.New(symbol("probe"), number(5000))))
	o.log = log
	want := o.run(n)
	last := o.probe(5000)
	sx.Assert(o.next == len(log), "a command is run that should not be")
	msg, bad := failed(r)
	sx.Assert(!bad, "an error: "+msg)
	sx.Assert(pair.Is(r) && pair.Cdr(r) != pair.Null && pair.Cdr(pair.Cdr(r)) == pair.Null, "a command leaves no result or more than one")
	sx.Assert(pair.Car(pair.Cdr(r)) == last, "a command returns another value")
	if want != nil {
		sx.Assert(pair.Car(r) == want, "a control structure yields another value")
		sx.Reach("value")
	}
	sx.Reach("control")
}
