package heng

import (
	"os"
	"strconv"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/scope"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// A file to import.
type source struct {
	name   string // of the module; empty for none
	nested bool   // imports the next file
	fails  int    // 0 never, 1 at the start, 2 at the end
	early  bool   // fails before it is named
}

// imported is what importing should give.
type imported struct {
	id  int // of the object; 0 for none
	by  int // the file it comes from
	err string
}

// loader is the reference for import.
type loader struct {
	files []source
	named map[string]imported
	log   string
	next  int
}

func (l *loader) load(i int) imported {
	n := strconv.Itoa(i)
	f := l.files[i]
	l.log += "s" + n
	if f.fails == 1 && f.early {
		return imported{err: "bad" + n}
	}
	if f.name != "" {
		if r, ok := l.named[f.name]; ok {
			return r
		}
	}
	if f.fails == 1 {
		return imported{err: "bad" + n}
	}
	if f.nested {
		if r := l.load(i + 1); r.err != "" {
			return r
		}
		l.log += "n" + n
	}
	if f.fails == 2 {
		return imported{err: "bad" + n}
	}
	l.log += "e" + n
	l.next++
	r := imported{id: l.next, by: i}
	if f.name != "" {
		l.named[f.name] = r
	}
	return r
}

// Imports checks what importing files gives.
func Imports() {
	sx.Enter()
	m := machine()
	log := ""
	global.Define("note", native(func(t *task.T) task.Op {
		log += common.String(pair.Car(t.Code()))
		return t.Return(pair.Null)
	}))
	n := sx.Param("files", 2)
	l := &loader{named: map[string]imported{}}
	values := make([]string, n)
	for i := 0; i < n; i++ {
		num := strconv.Itoa(i)
		values[i] = sx.Str("value", 1)
		global.Define("value"+num, str.New(values[i]))
		f := source{}
		src := "note s" + num + "\n"
		if sx.Choice("named", sx.Param("names", 2)) == 1 {
			f.name = "shared"
			if sx.Param("shared", 0) == 0 {
				f.name = sx.Str("name", 1)
			}
			global.Define("name"+num, str.New(f.name))
		}
		f.nested = i+1 < n && sx.Choice("nested", 2) == 1
		f.fails = sx.Choice("fails", sx.Param("fails", 3))
		f.early = f.fails == 1 && f.name != "" && sx.Choice("early", 2) == 1
		fail := "throw bad" + num + "\nnote x" + num + "\n"
		if f.early {
			src += fail
		}
		if f.name != "" {
			src += "module $name" + num + "\n"
		}
		if f.fails == 1 && !f.early {
			src += fail
		}
		src += "define hidden 1\nexport value $value" + num + "\n"
		if f.nested {
			src += "define other: import /m" + strconv.Itoa(i+1) + ".oh\nnote n" + num + "\n"
			src += "export next: method () {\n    other fetch\n}\n"
		}
		if f.fails == 2 {
			src += fail
		}
		src += "export fetch: method () {\n    return $value\n}\nnote e" + num + "\n"
		os.WriteFile("/m"+num+".oh", []byte(src), 0o644)
		l.files = append(l.files, f)
	}

	k := sx.Param("imports", 2)
	got := make([]cell.I, k)
	errs := make([]string, k)
	m.def("got", native(func(t *task.T) task.Op {
		i, _ := strconv.Atoi(common.String(pair.Car(t.Code())))
		sx.Assert(got[i] == nil && errs[i] == "", "an import gives two results")
		got[i] = pair.Car(pair.Cdr(t.Code()))
		return t.Return(pair.Null)
	}))
	m.def("lost", native(func(t *task.T) task.Op {
		i, _ := strconv.Atoi(common.String(pair.Car(t.Code())))
		sx.Assert(got[i] == nil && errs[i] == "", "an import gives two results")
		errs[i] = common.String(pair.Car(pair.Cdr(t.Code())))
		return t.Return(pair.Null)
	}))
	m.must("define try: method (k path) {\ncatch ex {\nlost $k $ex\nreturn ()\n}\ngot $k (import $path)\n}\n")
	from := make([]int, k)
	for i := range from {
		if i > 0 && n == 1 {
			continue
		}
		from[i] = sx.Choice("file", n)
	}
	call := func(i int) string {
		return "try " + strconv.Itoa(i) + " /m" + strconv.Itoa(from[i]) + ".oh\n"
	}
	tasks := sx.Param("tasks", 0) > 0
	sx.Quiesce()
	sx.Leave()
	if tasks {
		src := "block {\n"
		for i := 1; i < k; i++ {
			src += "define t" + strconv.Itoa(i) + ": spawn {\n" + call(i) + "}\n"
		}
		src += call(0)
		for i := 1; i < k; i++ {
			src += "wait $t" + strconv.Itoa(i) + "\n"
		}
		m.start(parse(src + "}\n")[0])
	} else {
		for i := 0; i < k; i++ {
			m.start(parse(call(i))[0])
		}
	}
	sx.Enter()
	was := len(log)
	sx.Quiesce()
	sx.Assert(len(log) == was, "an import goes on after its end")

	// Imports at the same time are as if one after the other, in any order.
	order := make([]int, k)
	for i := range order {
		order[i] = i
	}
	var want []imported
	ok := false
	try := func() {
		if ok {
			return
		}
		r := &loader{files: l.files, named: map[string]imported{}}
		want = make([]imported, k)
		for _, i := range order {
			want[i] = r.load(from[i])
		}
		ok = r.log == log
		for i := range want {
			ok = ok && errs[i] == want[i].err && (got[i] != nil) == (want[i].id > 0)
		}
	}
	if tasks {
		permute(order, 0, try)
	} else {
		try()
	}
	sx.Assert(ok, "a file is not loaded as it should be: "+log)
	for i, w := range want {
		if w.err != "" {
			sx.Reach("error")
			continue
		}
		for j := 0; j < i; j++ {
			if want[j].id == 0 {
				continue
			}
			same := got[i].Equal(got[j])
			sx.Assert(same || want[j].id != w.id, "a module is loaded again")
			sx.Assert(!same || want[j].id == w.id, "files share an object")
			if same {
				sx.Reach("shared")
			}
		}
		o := scope.To(got[i])
		sx.Assert(o.Lookup("hidden") == nil, "a private name of a file is visible")
		m.def("o", got[i])
		v := m.must("o fetch\n")
		sx.Assert(str.Is(v) && str.To(v).String() == values[w.by], "an exported method of a file gives something else")
		if l.files[w.by].nested {
			sx.Assert(str.Is(m.must("o next\n")), "an import in a file has no result")
			sx.Reach("nested")
		}
		sx.Reach("object")
	}
	for _, s := range []string{"hidden", "value", "fetch", "other", "module-name"} {
		sx.Assert(m.S.Lookup(s) == nil, "importing defines a name for the importer")
	}
}

// permute calls f for every order of the elements from i on.
func permute(order []int, i int, f func()) {
	if i == len(order) {
		f()
		return
	}
	for j := i; j < len(order); j++ {
		order[i], order[j] = order[j], order[i]
		permute(order, i+1, f)
		order[i], order[j] = order[j], order[i]
	}
}
