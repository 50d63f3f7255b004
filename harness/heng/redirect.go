package heng

import (
	"os"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// targets is a directory to redirect to and from:
//
//	f  f2  g*  d/  d/f  l -> f  dl -> new (missing)  n -> /dev/null
func targets() (string, func()) {
	d, err := os.MkdirTemp("", "sx")
	if err != nil {
		panic(err.Error())
	}
	os.Mkdir(d+"/d", 0o755)
	for _, n := range []string{"f", "f2", "g*", "d/f"} {
		if err := os.WriteFile(d+"/"+n, []byte("old "+n+"\n"), 0o644); err != nil {
			panic(err.Error())
		}
	}
	os.Symlink("f", d+"/l")
	os.Symlink("new", d+"/dl")
	os.Symlink("/dev/null", d+"/n")
	entries = []string{"d/f", "dl", "f", "f2", "g*", "l", "n"}
	start := here()
	os.Chdir(d)
	return d, func() {
		os.Chdir(start)
		os.RemoveAll(d)
	}
}

// contents are the regular files below dir.
func contents(dir string) map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		n := dir + "/" + e.Name()
		if e.IsDir() {
			for k, v := range contents(n) {
				out[k] = v
			}
		} else if e.Type().IsRegular() {
			b, err := os.ReadFile(n)
			if err != nil {
				panic(err.Error())
			}
			out[n] = string(b)
		}
	}
	return out
}

// real is the file that path names.
func real(d, path string) string {
	i, err := os.Stat(path)
	if err != nil {
		if path == "dl" || path == d+"/dl" {
			return d + "/new"
		}
		if strings.HasPrefix(path, "/") {
			return path
		}
		return d + "/" + path
	}
	for k := range contents(d) {
		if j, err := os.Stat(k); err == nil && os.SameFile(i, j) {
			return k
		}
	}
	return ""
}

const (
	checked = iota
	clobbers
	appends
	inputs
)

var redirections = []struct {
	op     string
	errors bool
	kind   int
}{
	{">", false, checked}, {">|", false, clobbers}, {">>", false, appends}, {"<", false, inputs},
	{">&", true, checked}, {">&|", true, clobbers}, {">>&", true, appends},
}

// fill replaces words of a command.
func fill(c cell.I, with map[string]cell.I) cell.I {
	if c != pair.Null && pair.Is(c) {
		return pair.Cons(fill(pair.Car(c), with), fill(pair.Cdr(c), with))
	}
	if sym.Is(c) {
		if v, ok := with[text(c)]; ok {
			return v
		}
	}
	return c
}

// Redirect checks the redirections of redirection.
func Redirect() {
	d, undo := targets()
	defer undo()
	if sx.Param("modes", 0) > 0 {
		// Whatever its permissions are.
		p := os.FileMode(sx.Byte("permissions")) | os.FileMode(sx.Byte("owner")&1)<<8
		s := sx.Byte("special")
		p |= os.FileMode(s&1)<<20 | os.FileMode(s>>1&1)<<22 | os.FileMode(s>>2&1)<<23
		if err := os.Chmod(d+"/f", p); err != nil {
			panic(err.Error())
		}
	}
	side, err := os.MkdirTemp("", "sx")
	if err != nil {
		panic(err.Error())
	}
	defer os.RemoveAll(side)
	file := func(n string) *os.File {
		f, err := os.Create(side + "/" + n)
		if err != nil {
			panic(err.Error())
		}
		return f
	}
	m := machine()
	m.Max = 200000
	m.S.Export("PWD", str.New(d))
	m.S.Export("HOME", str.New(d+"/d"))
	m.S.Export("stdout", pipe.New(nil, file("out")))
	m.S.Export("stderr", pipe.New(nil, file("err")))
	os.WriteFile(side+"/in", []byte("input\n"), 0o644)
	in, err := os.Open(side + "/in")
	if err != nil {
		panic(err.Error())
	}
	m.S.Export("stdin", pipe.New(in, nil))

	form := redirections[sx.Choice("form", len(redirections))]

	// What names the file.
	set := []string{"fx*?", "f*[]~/", "lnd", "f \tx$", "df/"}[sx.Param("set", 0)]
	name := bounded("name", sx.Param("n", 2), set)
	sx.Assume(!strings.HasPrefix(name, "/"))
	asked := 0
	var code cell.I
	var paths []string
	known := true
	conduit := false
	words := func() {
		sx.Assume(!strings.HasSuffix(name, "/") && !strings.Contains(name, "//"))
		for _, q := range strings.Split(name, "/") {
			sx.Assume(q != "." && q != "..")
		}
		switch {
		case name == "~":
			paths = []string{d + "/d"}
		case name == "~/f":
			paths = []string{d + "/d/f"}
		case strings.HasPrefix(name, "~"):
			known = false
		case magic(name):
			paths, _ = generated(name)
		default:
			paths = []string{name}
		}
	}
	switch []string{"string", "word", "variable", "value", "command", "conduit"}[sx.Choice("how", sx.Param("hows", 6))] {
	case "string":
		code, paths = str.New(name), []string{name}
	case "word":
		sx.Assume(name != "")
		words()
		code = sym.New(name)
	case "variable":
		m.def("v", str.New(name))
		code, paths = list.New(symbol("resolve"), symbol("v")), []string{name}
	case "value":
		words()
		m.def("v", sym.New(name))
		code = list.New(symbol("resolve"), symbol("v"))
	case "command":
		m.def("ask", native(func(t *task.T) task.Op {
			asked++
			return t.Return(str.New(name))
		}))
		code, paths = list.New(symbol("ask")), []string{name}
	case "conduit":
		sx.Assume(name == "")
		conduit = true
		if form.kind == inputs {
			f, err := os.Open(d + "/f")
			if err != nil {
				panic(err.Error())
			}
			m.def("v", pipe.New(f, nil))
		} else {
			f, err := os.OpenFile(d+"/f", os.O_WRONLY|os.O_APPEND, 0o644)
			if err != nil {
				panic(err.Error())
			}
			m.def("v", pipe.New(nil, f))
		}
		code = list.New(symbol("resolve"), symbol("v"))
		paths = []string{d + "/f"}
	}

	// What is redirected.
	ran := 0
	m.def("tick", native(func(t *task.T) task.Op {
		ran++
		return t.Return(pair.Null)
	}))
	got := []string{}
	m.def("tell", native(func(t *task.T) task.Op {
		s := "-"
		if c := pair.Car(t.Code()); c != pair.Null {
			s = text(c)
		}
		got = append(got, s)
		return t.Return(pair.Null)
	}))
	m.def("fails", native(func(t *task.T) task.Op { panic("oops") }))
	ends := []string{"quote 5", "fails", "throw oops", "write-line inner >| other\n write-line out2\n fails", "write-line inner >> d/f < f\n tell (read-line)\n quote 5", "return 5"}
	end := 0
	if sx.Param("nested", 0) > 0 {
		end = 2 + sx.Choice("end", 4)
	} else {
		end = sx.Choice("end", 2)
	}
	body := parse("block {\n tick\n write-line out\n error err\n tell (read-line)\n " + ends[end] + "\n}\n")[0]
	cmd := fill(parse("zz-body " + form.op + " zz-name\n")[0], map[string]cell.I{"zz-name": code})
	// The body is a command of its own.
	cmd = putBody(cmd, body)
	if end == 5 {
		// Leaving the method from the redirected command.
		mth := parse("method () {\n zz-body\n tick\n}\n")[0]
		cmd = list.New(putBody(mth, cmd))
	}

	before := contents(d)
	open := mos.Open()
	streams := func() (s [3]cell.I) {
		for i, k := range []string{"stdin", "stdout", "stderr"} {
			s[i] = m.must("resolve " + k + "\n")
		}
		return
	}
	was := streams()
	fault := 0
	if sx.Param("faults", 0) > 0 {
		fault = sx.Choice("fault", 3)
		mos.OpenFails, mos.WriteFails = fault == 1, fault == 2
	}
	r := m.in(m.F, cmd)
	mos.OpenFails, mos.WriteFails = false, false
	msg, bad := failed(r)
	after := contents(d)

	sx.Assert(streams() == was, "a stream stays redirected")
	if !conduit {
		sx.Assert(mos.Open() == open, "a file stays open")
	}
	sx.Assert(asked < 2, "the name is evaluated more than once")
	m.must("write-line after\n")
	m.must("error after\n")
	outs := contents(side)
	end1 := strings.HasSuffix(outs[side+"/out"], "after\n") && strings.HasSuffix(outs[side+"/err"], "after\n")
	sx.Assert(end1, "output after a redirection goes elsewhere")
	out := strings.TrimSuffix(outs[side+"/out"], "after\n")
	errs := strings.TrimSuffix(outs[side+"/err"], "after\n")

	if !known {
		return
	}
	// Whether the command may run.
	run := len(paths) == 1
	target := ""
	old := ""
	if run {
		p := paths[0]
		i, err := os.Stat(p)
		target = real(d, p)
		var exists bool
		old, exists = before[target]
		switch {
		case conduit:
		case exists:
			run = form.kind != checked
		case err == nil && i.IsDir():
			run = form.kind == inputs
			known = form.kind != inputs
		case p == "n" || p == d+"/n":
			target = ""
		default:
			run = form.kind != inputs && p != "" && !strings.HasSuffix(p, "/")
			if k := strings.LastIndexByte(p, '/'); run && k > 0 {
				j, err := os.Stat(p[:k])
				run = err == nil && j.IsDir()
			}
		}
	}
	if !known {
		return
	}
	same := func(but ...string) {
		for k, v := range before {
			skip := false
			for _, b := range but {
				skip = skip || b == k
			}
			w, ok := after[k]
			sx.Assert(skip || ok && v == w, "another file is changed")
		}
		for k := range after {
			_, ok := before[k]
			for _, b := range but {
				ok = ok || b == k
			}
			sx.Assert(ok, "another file is created")
		}
	}
	if fault == 1 && !conduit {
		run = false
	}
	if !run {
		sx.Reach("error")
		sx.Assert(bad, "a redirection that is not possible is no error")
		sx.Assert(ran == 0, "the command of a redirection that is not possible is run")
		same()
		return
	}
	sx.Assert(ran == 1, "a redirected command is not run exactly once: "+msg)
	if fault == 2 {
		sx.Assert(bad, "a failure to write is no error")
		sx.Reach("fault")
		return
	}
	fails := end >= 1 && end <= 3
	sx.Assert(bad == fails, "a redirected command ends otherwise than alone")
	if fails {
		sx.Assert(msg == "oops", "the error of a redirected command is changed")
		sx.Reach("fails")
	} else {
		sx.Assert(text(r) == "5", "the value of a redirected command is changed")
	}
	written, wantOut, wantErr := "out\n", "", "err\n"
	if form.errors {
		written, wantErr = "out\nerr\n", ""
	}
	if form.kind == inputs {
		wantOut, written = written, ""
	}
	read := "input"
	if form.kind == inputs {
		read = "-"
		if target != "" {
			read = strings.TrimSuffix(old, "\n")
		}
	}
	but := []string{target}
	if end == 3 {
		but = append(but, d+"/other")
		sx.Assert(target == d+"/other" || after[d+"/other"] == "inner\n", "the inner redirection goes elsewhere")
		if form.kind == inputs {
			wantOut += "out2\n"
		} else {
			written += "out2\n"
		}
	}
	if end == 4 {
		but = append(but, d+"/d/f")
		if target != d+"/d/f" {
			sx.Assert(after[d+"/d/f"] == before[d+"/d/f"]+"inner\n", "the inner redirection goes elsewhere")
		}
		sx.Assert(len(got) == 2 && got[1] == "-", "input is read twice")
	}
	sx.Assert(len(got) >= 1 && got[0] == read, "a redirected command reads the wrong input")
	sx.Assert(out == wantOut && errs == wantErr, "output goes elsewhere")
	same(but...)
	if target == "" || end == 4 && target == d+"/d/f" {
		sx.Reach("device")
		return
	}
	switch {
	case form.kind == inputs:
		sx.Assert(after[target] == old, "input redirection changes the file")
		sx.Reach("input")
	case form.kind == appends || conduit:
		sx.Assert(after[target] == old+written, "appending loses text")
		sx.Reach("append")
	default:
		sx.Assert(after[target] == written, "the file does not hold the output")
		if old != "" {
			sx.Reach("clobber")
		} else {
			sx.Reach("new")
		}
	}
}

// putBody replaces the command zz-body.
func putBody(c, body cell.I) cell.I {
	if c == pair.Null || !pair.Is(c) {
		return c
	}
	if h := pair.Car(c); sym.Is(h) && text(h) == "zz-body" {
		return body
	}
	return pair.Cons(putBody(pair.Car(c), body), putBody(pair.Cdr(c), body))
}
