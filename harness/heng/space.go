package heng

import (
	"os"
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common/type/create"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Ways to repeat. MARK measures, BODY is the command repeated, more tells
// whether to go on and cond takes any value.
var repeats = []string{
	"while (more) {\n MARK\n BODY\n}\n",
	"define f: method () {\n MARK\n BODY\n if (more) {\n f\n}\n}\nf\n",
	"define f: method () {\n MARK\n if (done) {\n quote 1\n} else {\n BODY\n f\n}\n}\nf\n",
	"define f: method () {\n MARK\n if (done) {\n quote 1\n} else if (cond) {\n BODY\n f\n} else if (cond) {\n f\n} else {\n f\n}\n}\nf\n",
	"define f: method () {\n MARK\n block {\n BODY\n if (more) {\n if true {\n block {\n f\n}\n}\n}\n}\n}\nf\n",
	"define g ()\ndefine f: method () {\n MARK\n BODY\n if (more) {\n g\n}\n}\nset g: method () {\n if (cond) {\n f\n} else {\n block {\n f\n}\n}\n}\nf\n",
	"define f: method (n) {\n MARK\n BODY\n if (more) {\n f (add $n 1)\n}\n}\nf 1\n",
	"define f: method (n (rest)) {\n MARK\n BODY\n if (more) {\n f (splice $rest) 7\n}\n}\nf 1 2 3\n",
	"define ob: object {\n export f: method self () {\n MARK\n BODY\n if (more) {\n self f\n}\n}\n}\nob f\n",
	"define h: block {\n method (g) {\n if (more) {\n g\n}\n}\n}\ndefine f: method () {\n MARK\n BODY\n h $f\n}\nf\n",
	"define f: syntax (x) {\n MARK\n BODY\n if (more) {\n f y\n}\n}\nf x\n",
	"define f: method () e {\n MARK\n BODY\n if (more) {\n e eval (list f)\n}\n}\nf\n",
	"define i 0\nwhile (more) {\n set i: add $i 1\n while (lt? $i 2) {\n set i: add $i 1\n}\n MARK\n if (cond) {\n BODY\n} else {\n block {\n BODY\n}\n}\n}\n",
	"define f: method () {\n if (cond) {\n MARK\n}\n block {\n define x 1\n BODY\n}\n if (done) {\n return 1\n}\n f\n}\nf\n",
}

// Commands to repeat.
var repeated = []string{
	"quote 1",
	"define x 1",
	"block {\n export y: list 1 2 3\n}",
	"set v: add 1 2",
	"block {\n define x 1\n quote 1\n}",
	"block {\n}",
	"if (cond) {\n quote 1\n}",
	"if (cond) {\n quote 1\n} else {\n quote 2\n}",
	"while () {\n quote 1\n}",
	"get v",
	"set? v",
	"set? nothing",
	"resolve v",
	"resolves? nothing",
	"eval v",
	"interpolate 'a${v}b'",
	"method () {\n}",
	"syntax (x) e {\n}",
	"(method () = 5)",
	"(method (a) s {\n return $a\n}) 6",
	"(method () {\n return 5\n quote 6\n})",
	"(syntax (a) e {\n return (e eval $a)\n}) $v",
	"(method () {\n catch ex {\n return 1\n}\n throw 5\n})",
	"(method () {\n catch ex {\n return 1\n}\n add a a\n})",
	"(method () {\n catch ex {\n return 1\n}\n (method () {\n block {\n add a a\n}\n})\n})",
	"(method () {\n if true {\n while true {\n return 5\n}\n}\n})",
	"list 1 (list 2 3) 4",
	"list (splice (list 1 2)) 3",
	"add (splice (list 1 2)) (mul 2 2)",
	"l head",
	"l reverse",
	"l get 1",
	"l slice 1 2",
	"o m",
	"mp set a 1",
	"mp get a",
	"define z: object {\n export w 1\n}",
	"str upper abc",
	"str length $s",
	"and true ()",
	"or () ()",
	"not: quote 1",
	"method? $more",
	"continuation? $v",
	"syntax? $if",
	"match 'a*' abc",
	"mend , a b",
	"rend , 'a,b'",
	"equal? 1 2 3",
	"chan? 5",
	"exists /w",
	"glob a '*'",
	"block {\n cd .\n}",
	"cd nowhere",
	"for (list 1 2) (method (x) = $x)",
	"quasiquote (1 (unquote $v))",
	"null? ()",
	"trace",
	"string 5",
	"number 5",
	"cons 1 2",
	"write-line x > /dev/null",
	"unset nothing",
	"write-line y",
	"error e",
	"p write 5",
	"exists nothing",
	"coalesce nothing 5",
	"umask 18",
}

// Commands that need a task of the job.
var started = []string{
	"prog a b",
	"block {\n /d\n}",
	"prog a > /dev/null",
	"wait",
	"spawn {\n quote 1\n}\n wait",
	"capture (write-line x)",
	"prog (splice (capture (write-line x)))",
	"(method () {\n catch ex {\n return 1\n}\n prog nothing*\n})",
	"write-line x | read-line",
	"chan 1",
}

func (m *M) spaceDefs() {
	m.Max = 200000
	m.def("v", sym.New("1"))
	m.must("define l: list 1 2 3\n")
	m.must("define s abc\n")
	m.must("define o: object {\n export v 1\n export m: method s () = 5\n}\n")
	m.must("define mp: map\nmp set a 2\n")
	m.must("define p: open w /dev/null\n")
	m.must("export stdout: open w /dev/null\n")
	m.must("export stderr: open w /dev/null\n")
	asked, calls = map[int]bool{}, 0
	m.def("cond", native(func(t *task.T) task.Op {
		// The same answers every second time.
		k := len(sizes)%2*10 + calls
		calls++
		v, ok := asked[k]
		if !ok {
			v = sx.Choice("cond"+strconv.Itoa(k), 2) == 1
			asked[k] = v
		}
		return t.Return(create.Bool(v))
	}))
}

var (
	sizes []int
	asked map[int]bool
	calls int
)

// Loops checks that repetition takes constant space.
func Loops() {
	m := machine()
	m.spaceDefs()
	count, total := 0, sx.Param("times", 6)
	sizes = nil
	m.def("mark", native(func(t *task.T) task.Op {
		t.ReplaceResult(pair.Null)
		op := t.PreviousOp()
		sizes = append(sizes, sx.Size(t))
		calls = 0
		return op
	}))
	m.def("more", native(func(t *task.T) task.Op {
		count++
		return t.Return(create.Bool(count < total))
	}))
	m.def("done", native(func(t *task.T) task.Op {
		count++
		return t.Return(create.Bool(count >= total))
	}))
	which := sx.Choice("how", len(repeats))
	if k := sx.Param("how", -1); k >= 0 {
		sx.Assume(which == k)
	}
	how := repeats[which]
	what := repeated
	if k := sx.Param("bodies", 0); k > 0 {
		what = what[:k]
	}
	if sx.Param("started", 0) > 0 {
		what = started
		os.MkdirAll("/bin", 0o755)
		os.MkdirAll("/d", 0o755)
		os.WriteFile("/bin/prog", nil, 0o755)
		m.S.Export("PATH", str.New("/bin"))
		mos.Program = func(p *mos.Proc) int { return 0 }
	}
	body := what[sx.Choice("what", len(what))]
	src := strings.ReplaceAll(strings.ReplaceAll(how, "BODY", body), "MARK", "mark")
	var msg string
	var bad bool
	for _, c := range parse(src) {
		if sx.Param("started", 0) > 0 {
			msg, bad = failed(m.start(c))
		} else {
			msg, bad = failed(m.in(m.F, c))
		}
		if bad {
			break
		}
	}
	sx.Assert(!bad, "a loop fails: "+msg)
	for i := range sizes {
		sx.Log(strconv.Itoa(sizes[i]))
	}
	sx.Assert(len(sizes) < 5 || sizes[len(sizes)-1] <= sizes[len(sizes)-3], "space grows with every repetition")
	sx.Reach("loop")
}

// Results checks that a command leaves exactly one result.
func Results() {
	m := machine()
	m.spaceDefs()
	m.def("more", native(nil))
	body := repeated[sx.Choice("what", len(repeated))]
	code := parse("list first (" + body + ") second (" + body + ") third\n")[0]
	r := m.in(m.F, code)
	msg, bad := failed(r)
	sx.Assert(!bad, "a command fails: "+msg)
	var vs []string
	n := 0
	for r != pair.Null {
		c := pair.Car(r)
		if n == 0 || n == 2 || n == 4 {
			sx.Assert(sym.Is(c), "a command leaves no result, or several")
			vs = append(vs, text(c))
		}
		r = pair.Cdr(r)
		n++
	}
	sx.Assert(n == 5 && strings.Join(vs, " ") == "first second third", "a command leaves no result, or several")
	sx.Reach("result")
}
