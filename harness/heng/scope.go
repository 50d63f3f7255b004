package heng

import (
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/scope"
	"github.com/michaelmacinnis/oh/internal/common/struct/frame"
	"github.com/michaelmacinnis/oh/internal/common/type/env"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/obj"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// name is an arbitrary name that the shell itself does not use.
func name(label string) string {
	n := sx.Str(label, 1)
	sx.Assume(sx.And(n[0] >= 'A', n[0] <= 'Z'))
	return n
}

var fresh = 0

// value is a new value.
func value() cell.I {
	fresh++
	return str.New("v" + string(rune('0'+fresh/10)) + string(rune('0'+fresh%10)))
}

type bound struct {
	k string
	v cell.I
}

// scopeModel is what a scope should hold.
type scopeModel struct {
	up        *scopeModel
	priv, pub []bound
}

func find(bs []bound, k string) int {
	for i, b := range bs {
		if b.k == k {
			return i
		}
	}
	return -1
}

func put(bs []bound, k string, v cell.I) []bound {
	out := append([]bound(nil), bs...)
	if i := find(out, k); i >= 0 {
		out[i].v = v
		return out
	}
	return append(out, bound{k, v})
}

func drop(bs []bound, i int) []bound {
	return append(append([]bound(nil), bs[:i]...), bs[i+1:]...)
}

// place finds the binding a lookup should find.
func (s *scopeModel) place(k string) (*scopeModel, bool, int) {
	for ; s != nil; s = s.up {
		if i := find(s.priv, k); i >= 0 {
			return s, false, i
		}
		if i := find(s.pub, k); i >= 0 {
			return s, true, i
		}
	}
	return nil, false, 0
}

func (s *scopeModel) lookup(k string) cell.I {
	t, public, i := s.place(k)
	switch {
	case t == nil:
		return nil
	case public:
		return t.pub[i].v
	}
	return t.priv[i].v
}

func (s *scopeModel) set(k string, v cell.I) bool {
	t, public, i := s.place(k)
	switch {
	case t == nil:
		return false
	case public:
		t.pub = put(t.pub, k, v)
	default:
		t.priv = put(t.priv, t.priv[i].k, v)
	}
	return true
}

func (s *scopeModel) unset(k string) bool {
	t, public, i := s.place(k)
	switch {
	case t == nil:
		return false
	case public:
		t.pub = drop(t.pub, i)
	default:
		t.priv = drop(t.priv, i)
	}
	return true
}

func (s *scopeModel) public(k string) cell.I {
	for ; s != nil; s = s.up {
		if i := find(s.pub, k); i >= 0 {
			return s.pub[i].v
		}
	}
	return nil
}

// Scopes runs sequences of define, export, set, unset and copy in nested
// scopes and then looks a name up.
func Scopes() {
	m := machine()
	var ss []scope.I
	var ms []*scopeModel
	up, mup := m.S, (*scopeModel)(nil)
	for i := 0; i < sx.Param("scopes", 3); i++ {
		mup = &scopeModel{up: mup}
		up = env.New(up)
		ss, ms = append(ss, up), append(ms, mup)
	}
	steps := sx.Choice("steps", sx.Param("steps", 3)+1)
	for i := 0; i < steps; i++ {
		at := sx.Choice("scope", len(ss))
		s, w := ss[at], ms[at]
		kinds := 5
		if i == 0 && steps > 1 {
			kinds = 2 // nothing to set, unset or copy yet
		}
		op := sx.Choice("op", kinds)
		if op == 4 {
			ss = append(ss, s.Clone())
			ms = append(ms, &scopeModel{up: w.up, priv: w.priv, pub: w.pub})
			sx.Reach("clone")
			continue
		}
		k, v := name("name"), value()
		switch op {
		case 0:
			r, msg, bad := m.cmd(s, symbol("define"), symbol(k), v)
			sx.Assert(!bad, "define failed: "+msg)
			sx.Assert(r == v, "define did not answer with the value")
			w.priv = put(w.priv, k, v)
		case 1:
			r, msg, bad := m.cmd(s, symbol("export"), symbol(k), v)
			sx.Assert(!bad, "export failed: "+msg)
			sx.Assert(r == v, "export did not answer with the value")
			w.pub = put(w.pub, k, v)
		case 2:
			r, _, bad := m.cmd(s, symbol("set"), symbol(k), v)
			if w.set(k, v) {
				sx.Assert(!bad, "set failed on a defined name")
				sx.Assert(r == v, "set did not answer with the value")
				sx.Reach("set")
			} else {
				sx.Assert(bad, "set of an undefined name did not fail")
				sx.Reach("set error")
			}
		case 3:
			r, msg, bad := m.cmd(s, symbol("unset"), symbol(k))
			sx.Assert(!bad, "unset failed: "+msg)
			if w.unset(k) {
				sx.Assert(r == sym.True, "unset of a defined name answered no")
				sx.Reach("unset")
			} else {
				sx.Assert(r == pair.Null, "unset of an undefined name answered yes")
			}
		}
	}
	q := name("query")
	for i := range ss {
		want := ms[i].lookup(q)
		r, _, bad := m.cmd(ss[i], symbol("get"), symbol(q))
		is, _, _ := m.cmd(ss[i], symbol("set?"), symbol(q))
		// The same from code running in the scope.
		inner := m.in(frame.New(ss[i], m.F), list.New(symbol("resolve"), symbol(q)))
		_, bad2 := failed(inner)
		if want == nil {
			sx.Assert(bad, "an undefined name has a value")
			sx.Assert(bad2, "an undefined name resolves")
			sx.Assert(is == pair.Null, "set? of an undefined name is true")
			sx.Reach("undefined")
		} else {
			sx.Assert(!bad, "a defined name has no value")
			sx.Assert(r == want, "a name has the wrong value")
			sx.Assert(inner == want, "a name resolves to the wrong value")
			sx.Assert(is == sym.True, "set? of a defined name is false")
			sx.Reach("defined")
		}
	}
}

// Objects checks that only public names can be reached through an object.
func Objects() {
	m := machine()
	e0 := env.New(m.S)
	e1 := env.New(e0)
	w0 := &scopeModel{}
	w1 := &scopeModel{up: w0}
	ops := []string{"get", "set?", "unset", "set", "export", "define", "resolve", "resolves?", "eval", "interpolate"}
	for _, s := range ops {
		e1.Export(s, global.Lookup(s).Get())
	}
	init := func(label string, to func(string, cell.I), bs *[]bound) {
		if sx.Bool(label) {
			k, v := name(label+" name"), value()
			to(k, v)
			*bs = put(*bs, k, v)
		}
	}
	init("private", e1.Define, &w1.priv)
	init("public", e1.Export, &w1.pub)
	init("outer private", e0.Define, &w0.priv)
	init("outer public", e0.Export, &w0.pub)
	q := name("query")
	o := obj.New(e1)
	if sx.Bool("copy") {
		o = o.Clone()
		w1 = &scopeModel{up: w1.up, priv: w1.priv, pub: w1.pub}
		e1 = o.Expose()
		sx.Reach("copy")
	}
	// A method of the object, for the view from inside.
	e1.Export("peek", m.in(frame.New(e1, m.F), list.New(symbol("method"), pair.Null, list.New(symbol("resolve"), symbol(q)))))
	hidden := []cell.I{}
	for _, b := range append(append(append([]bound(nil), w1.priv...), w0.priv...), w0.pub...) {
		hidden = append(hidden, b.v)
	}
	pub := &scopeModel{pub: w1.pub}
	v := value()
	op := ops[sx.Choice("op", len(ops))]
	var r cell.I
	var bad bool
	switch op {
	case "get", "resolve":
		r, _, bad = m.cmd(o, symbol(op), symbol(q))
		want := pub.lookup(q)
		sx.Assert(bad == (want == nil), op+" through an object finds what is not public or misses what is")
		sx.Assert(bad || r == want, op+" through an object gives the wrong value")
	case "set?", "resolves?":
		r, _, bad = m.cmd(o, symbol(op), symbol(q))
		sx.Assert(!bad, op+" through an object failed")
		sx.Assert((r == sym.True) == (pub.lookup(q) != nil), op+" through an object gives the wrong answer")
	case "unset":
		r, _, bad = m.cmd(o, symbol(op), symbol(q))
		sx.Assert((r == sym.True) == pub.unset(q), "unset through an object gives the wrong answer")
	case "set":
		r, _, bad = m.cmd(o, symbol(op), symbol(q), v)
		sx.Assert(bad == !pub.set(q, v), "set through an object of what is not public succeeds or the other way")
	case "export":
		m.cmd(o, symbol(op), symbol(q), v)
		pub.pub = put(pub.pub, q, v)
	case "define":
		r, _, bad = m.cmd(o, symbol(op), symbol(q), v)
		sx.Assert(bad, "a private name was added through an object")
	case "eval":
		// eval (resolve q), in the object.
		r, _, bad = m.cmd(o, symbol(op), list.New(symbol("quote"), list.New(symbol("resolve"), symbol(q))))
		want := pub.lookup(q)
		sx.Assert(bad == (want == nil), "eval in an object finds what is not public or misses what is")
		sx.Assert(bad || r == want, "eval in an object gives the wrong value")
	case "interpolate":
		r, _, bad = m.cmd(o, symbol(op), str.New("${"+q+"}"))
		want := pub.lookup(q)
		sx.Assert(bad == (want == nil), "interpolation in an object finds what is not public or misses what is")
		sx.Assert(bad || common.String(r) == common.String(want), "interpolation in an object gives the wrong value")
	}
	for _, h := range hidden {
		sx.Assert(r != h, op+" through an object reveals a private value")
	}
	sx.Reach(op)
	w1.pub = pub.pub
	// Calling by name.
	_, _, bad = m.cmd(o, symbol(q))
	sx.Assert(bad, "a value was called")
	// The view from inside, and the private bindings.
	want := w1.lookup(q)
	in, _, bad := m.cmd(o, symbol("peek"))
	if want == nil {
		sx.Assert(bad, "code inside the object finds an undefined name")
	} else {
		sx.Assert(in == want, "code inside the object finds the wrong value")
	}
	for _, s := range []struct {
		e scope.I
		w *scopeModel
	}{{e1, w1}, {e0, w0}} {
		for _, b := range s.w.priv {
			ref := s.e.Lookup(b.k)
			sx.Assert(ref != nil && ref.Get() == b.v, op+" through an object changed a private name")
		}
		for _, b := range s.w.pub {
			ref := s.e.Public().Get(b.k)
			sx.Assert(ref != nil && ref.Get() == b.v, op+" through an object left the wrong public name")
		}
		x := s.e.Lookup(q)
		y := s.w.lookup(q)
		sx.Assert((x == nil) == (y == nil), op+" through an object added or removed a name")
	}
}

// Callers checks what a method called through other methods finds, and what
// an external command would be given.
func Callers() {
	m := machine()
	n := 1 + sx.Choice("depth", sx.Param("depth", 2))
	nested := sx.Bool("nested")
	var frames []*scopeModel // innermost first
	var parent scope.I = m.S
	var mparent *scopeModel
	top := &scopeModel{}
	mparent = top
	if sx.Bool("shared export") {
		k, v := name("shared name"), value()
		m.S.Export(k, v)
		top.pub = put(top.pub, k, v)
	}
	q := name("query")
	var got cell.I
	var environ []string
	m.def("zz-probe", native(func(t *task.T) task.Op {
		got = t.CellValue(q)
		environ = t.Environ()
		return t.Return(pair.Null)
	}))
	next := list.New(symbol("zz-probe"))
	for i := 0; i < n; i++ {
		e := env.New(parent)
		w := &scopeModel{up: mparent}
		if sx.Bool("private") {
			k, v := name("private name"), value()
			e.Define(k, v)
			w.priv = put(w.priv, k, v)
		}
		if sx.Bool("public") {
			k, v := name("public name"), value()
			e.Export(k, v)
			w.pub = put(w.pub, k, v)
		}
		local := &scopeModel{up: w}
		body := []cell.I{}
		if sx.Bool("local") {
			k, v := name("local name"), value()
			if sx.Bool("local public") {
				body = append(body, list.New(symbol("export"), symbol(k), v))
				local.pub = put(local.pub, k, v)
			} else {
				body = append(body, list.New(symbol("define"), symbol(k), v))
				local.priv = put(local.priv, k, v)
			}
		}
		call := next
		if sx.Param("block", 0) > 0 && sx.Bool("block") {
			call = list.New(symbol("block"), call)
		}
		body = append(body, call, list.New(symbol("zz-nothing")))
		mt := m.in(frame.New(e, m.F), pair.Cons(symbol("method"), pair.Cons(pair.Null, list.New(body...))))
		label := "zz-m" + string(rune('0'+i))
		m.def(label, mt)
		next = list.New(symbol(label))
		frames = append(frames, local)
		if nested {
			parent, mparent = e, w
		}
	}
	m.def("zz-nothing", native(func(t *task.T) task.Op { return t.Return(pair.Null) }))
	// The outermost caller is the machine's own scope.
	frames = append(frames, top)
	r := m.in(m.F, next)
	msg, bad := failed(r)
	sx.Assert(!bad, "the call failed: "+msg)

	want := frames[0].lookup(q)
	pub := frames[0].public(q)
	for _, f := range frames[1:] {
		if pub == nil {
			pub = f.public(q)
		}
		if want == nil {
			want = f.public(q)
		}
	}
	if want == nil {
		sx.Assert(got == nil, "a name that no caller exports is visible")
		sx.Reach("none")
	} else {
		sx.Assert(got != nil, "an exported name is not visible to a callee")
		sx.Assert(got == want, "a callee sees the wrong binding")
		sx.Reach("some")
	}
	count := 0
	for _, s := range environ {
		if strings.HasPrefix(s, q+"=") {
			count++
			sx.Assert(pub != nil, "a name that is not exported is in the environment")
			sx.Assert(s == q+"="+common.String(pub), "the environment holds the wrong value")
			sx.Reach("environment")
		}
	}
	sx.Assert(count <= 1, "a name is in the environment twice")
	sx.Assert(pub == nil || count == 1, "an exported name is not in the environment")
	for _, s := range []string{"PATH=/bin", "HOME=/home", "PWD=/w", "OLDPWD=/w"} {
		count = 0
		for _, x := range environ {
			if x == s {
				count++
			}
		}
		sx.Assert(count == 1 || !sx.Symbolic(), "a variable of the shell's own environment is missing")
	}
}
