package hcore

import (
	"sync"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/scope"
	"github.com/michaelmacinnis/oh/internal/common/type/env"
	"github.com/michaelmacinnis/oh/internal/common/type/obj"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// What a task does to a shared scope.
const (
	opDefine = iota
	opExport
	opSet
	opRemove
	opGet
	opClone
	opEnviron
	opCount
	opVisible
	nOps
)

type step struct {
	op    int
	name  string
	value cell.I // stored
	done  bool   // whether it was stored or removed
	got   cell.I // read
}

// Shared checks that tasks can use one scope at once.
func Shared() {
	tasks, each := sx.Param("tasks", 2), sx.Param("each", 2)

	outer := env.New(nil)
	var s scope.I = env.New(outer)

	// A variable of the enclosing scope, and variables of both kinds.
	was := []*step{
		{op: opExport, name: "p", value: str.New("exported"), done: true},
		{op: opDefine, name: "q", value: str.New("defined"), done: true},
		{op: opDefine, name: "o", value: str.New("outer"), done: true},
	}
	s.Export("p", was[0].value)
	s.Define("q", was[1].value)
	outer.Define("o", was[2].value)
	object := sx.Param("object", 0) > 0
	inner := s
	if object {
		s = obj.New(s)
	}

	steps := make([][]*step, tasks)
	for i := range steps {
		for j := 0; j < each; j++ {
			x := &step{op: sx.Choice("op", sx.Param("ops", nOps))}
			switch sx.Param("names", 0) {
			case 0:
				x.name = []string{"p", "q", "o", "n"}[sx.Choice("name", sx.Param("vars", 4))]
			default:
				x.name = sx.Str("name", 1)
			}
			if object && x.op == opDefine {
				x.op = opExport
			}
			x.value = str.New(string([]byte{byte('a' + i), byte('0' + j)}))
			steps[i] = append(steps[i], x)
		}
	}

	var wg sync.WaitGroup
	wg.Add(tasks)
	for i := range steps {
		go func(todo []*step) {
			defer wg.Done()
			for _, x := range todo {
				perform(s, inner, x)
			}
		}(steps[i])
	}
	wg.Wait()

	// Every value read is one that was stored by that name.
	for i := range steps {
		for j, x := range steps[i] {
			if x.op != opGet && x.op != opClone {
				continue
			}
			sx.Reach("read")
			if x.got != nil {
				sx.Assert(stored(was, x) || some(steps, x), "a task reads a value that no task stored in the variable")
			}
			alone(was, steps, object, i, j)
		}
	}

	// What nobody removed is there, with the value of someone's last change.
	for _, name := range []string{"p", "q", "o", "n"} {
		stores, removes := 0, 0
		for i := range steps {
			for _, x := range steps[i] {
				if x.name != name {
					continue
				}
				switch x.op {
				case opDefine, opExport:
					stores++
				case opRemove:
					removes++
				}
			}
		}
		r := s.Lookup(name)
		if removes == 0 && stores > 0 {
			sx.Assert(r != nil, "a variable defined by a task is not there")
			sx.Reach("kept")
		}
		if r != nil {
			x := &step{name: name, got: r.Get()}
			sx.Assert(stored(was, x) || some(steps, x), "a variable has a value that no task stored in it")
		}
	}
}

func perform(s, inner scope.I, x *step) {
	switch x.op {
	case opDefine:
		s.Define(x.name, x.value)
		x.done = true
	case opExport:
		s.Export(x.name, x.value)
		x.done = true
	case opSet:
		if r := s.Lookup(x.name); r != nil {
			r.Set(x.value)
			x.done = true
		}
	case opRemove:
		x.done = s.Remove(x.name)
	case opGet:
		if r := s.Lookup(x.name); r != nil {
			x.got = r.Get()
		}
	case opClone:
		c := s.Clone()
		if r := c.Lookup(x.name); r != nil {
			x.got = r.Get()
			// The copy is its own; what encloses it is not.
			if r != s.Enclosing().Lookup(x.name) {
				r.Set(str.New("other"))
			}
		}
		c.Export(x.name, str.New("another"))
	case opEnviron:
		for _, v := range s.Public().Exported() {
			sx.Assert(v != "", "an exported variable without a value")
		}
	case opCount:
		sx.Assert(s.Exported() >= 0, "fewer than no variables")
	case opVisible:
		inner.Visible(env.New(inner))
	}
}

func stored(by []*step, x *step) bool {
	for _, y := range by {
		if y.value == x.got && y.name == x.name && (y.op == opDefine || y.op == opExport || y.op == opSet) {
			return true
		}
	}
	return false
}

func some(steps [][]*step, x *step) bool {
	for i := range steps {
		if stored(steps[i], x) {
			return true
		}
	}
	return false
}

// alone checks what a task reads from a variable that only it uses.
func alone(was []*step, steps [][]*step, object bool, i, j int) {
	x := steps[i][j]
	for k := range steps {
		if k == i {
			continue
		}
		for _, y := range steps[k] {
			if y.op <= opRemove && y.name == x.name {
				return
			}
		}
	}
	var outer, public, private cell.I
	for _, y := range append(append([]*step(nil), was...), steps[i][:j]...) {
		if y.name != x.name {
			continue
		}
		switch {
		case y == was[2]:
			outer = y.value
		case y.op == opDefine:
			private = y.value
		case y.op == opExport:
			public = y.value
		case y.op == opSet:
			switch {
			case private != nil && !object:
				private = y.value
			case public != nil:
				public = y.value
			case outer != nil && !object:
				outer = y.value
			}
		case y.op == opRemove:
			switch {
			case private != nil && !object:
				private = nil
			case public != nil:
				public = nil
			case !object:
				outer = nil
			}
		}
	}
	want := private
	if want == nil || object {
		want = public
	}
	if want == nil && !object {
		want = outer
	}
	sx.Assert(x.got == want, "a task does not read what it stored in a variable that no other task uses")
	sx.Reach("own")
}

// Symbols checks that tasks can make symbols at once.
func Symbols() {
	tasks, each, n := sx.Param("tasks", 2), sx.Param("each", 2), sx.Param("n", 1)

	if sx.Choice("all", 2) == 1 {
		sym.Cache(true)
	}

	texts := make([][]string, tasks)
	syms := make([][]cell.I, tasks)
	for i := range texts {
		for j := 0; j < each; j++ {
			texts[i] = append(texts[i], sx.Str("text", n))
		}
		syms[i] = make([]cell.I, each)
	}

	var wg sync.WaitGroup
	wg.Add(tasks)
	for i := range texts {
		go func(i int) {
			defer wg.Done()
			for j, s := range texts[i] {
				syms[i][j] = sym.New(s)
			}
			sym.Cache(sym.New("true") != sym.True)
		}(i)
	}
	wg.Wait()

	for i := range texts {
		for j, s := range texts[i] {
			c := syms[i][j]
			sx.Assert(sym.Is(c) && sym.To(c).String() == s, "a symbol has another text")
			for k := range texts {
				for l, t := range texts[k] {
					sx.Assert(c.Equal(syms[k][l]) == (s == t), "symbols with the same text are not equal")
				}
			}
		}
	}
	sx.Reach("made")
}
