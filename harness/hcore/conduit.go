package hcore

import (
	"runtime"
	"strings"
	"sync"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
	"github.com/michaelmacinnis/oh/internal/common/type/chn"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine/commands"
	"github.com/michaelmacinnis/oh/internal/zzverif/hv"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

var conduits = commands.ConduitMethods()

func cm(name string) func(cell.I, cell.I) cell.I {
	f, ok := conduits[name]
	sx.Assert(ok, name+" is not a conduit method")
	return f
}

// value makes an element of a record.
func value(depth, n int) *hv.V {
	k := []int{hv.Str, hv.Sym, hv.Num, hv.Null, hv.Pair}
	if sx.Param("plain", 0) > 0 {
		// What matters is which record it is.
		s := sx.Str("str", n)
		return &hv.V{K: hv.Str, S: s, C: str.New(s)}
	}
	if depth == 0 {
		k = k[:4]
	}
	v := &hv.V{K: k[sx.Choice("kind", len(k))]}
	switch v.K {
	case hv.Null:
		v.C = pair.Null
	case hv.Str:
		v.S = sx.Str("str", sx.Choice("length", n+1))
		v.C = str.New(v.S)
	case hv.Sym:
		v.S = sx.Str("sym", 1+sx.Choice("length", n))
		for i := 0; i < len(v.S); i++ {
			sx.Assume(!sx.In(v.S[i], "\"#$&();<>`{|},./:=@~"))
		}
		v.C = sym.New(v.S)
	case hv.Num:
		v.C = num.New([]string{"0", "-1", "1/3"}[sx.Choice("number", 3)])
		v.R = num.To(v.C).Rat()
	case hv.Pair:
		v.Car = value(depth-1, n)
		v.Cdr = &hv.V{K: hv.Null, C: pair.Null}
		if sx.Choice("more", 2) == 1 {
			v.Cdr = &hv.V{K: hv.Pair, Car: value(depth-1, n), Cdr: v.Cdr}
			v.Cdr.C = pair.Cons(v.Cdr.Car.C, pair.Null)
		}
		v.C = pair.Cons(v.Car.C, v.Cdr.C)
	}
	return v
}

// record makes the arguments of a write.
func record(depth, n int) *hv.V {
	a := value(depth, n)
	v := &hv.V{K: hv.Pair, Car: a, Cdr: &hv.V{K: hv.Null, C: pair.Null}}
	if sx.Param("two", 0) > 0 && sx.Choice("two", 2) == 1 {
		b := value(0, n)
		v.Cdr = &hv.V{K: hv.Pair, Car: b, Cdr: v.Cdr, C: list.New(b.C)}
	}
	v.C = pair.Cons(a.C, v.Cdr.C)
	return v
}

// A record on its way. A record written as a value is read as a value or, in
// its literal form, as a line. A record written as a line is read as a line.
type sent struct {
	v    *hv.V
	text string
	line bool
}

// Conduit checks that a conduit used by one task is a queue of records.
func Conduit() {
	n := sx.Param("n", 1)
	steps := sx.Param("steps", 4)
	isPipe := sx.Param("pipe", 0) > 0

	var (
		c      cell.I
		queue  []sent
		rd, wr = true, true
	)

	switch sx.Param("pipe", 0) {
	case 0:
		c = chn.New(int64(steps))
	default:
		c = pipe.New(nil, nil)
	}

	for i := 0; i < steps; i++ {
		op := 0
		switch {
		case sx.Param("pairs", 0) == 0:
			op = sx.Choice("op", 9)
		case i%2 == 0:
			op = sx.Choice("write", 2)
		default:
			op = 2 + sx.Choice("read", 3)
		}
		switch op {
		case 0, 1: // write, write-line
			if !wr && !isPipe {
				// Writing to a closed channel is an error.
				_, _, failed := hv.Call(func() cell.I { return cm("write")(c, list.New(sym.New("x"))) })
				sx.Assert(failed, "a value can be written to a closed channel")
				continue
			}
			v := record(sx.Param("depth", 0), n)
			s := sent{v: v, line: op == 1}
			if op == 1 {
				s.text = common.String(v.C)
				if isPipe {
					// A record is a line.
					sx.Assume(strings.IndexByte(s.text, '\n') < 0)
				}
			} else {
				s.text = literal.String(v.C)
			}
			r, _, failed := hv.Call(func() cell.I {
				if op == 1 {
					return cm("write-line")(c, v.C)
				}
				return cm("write")(c, v.C)
			})
			if !wr {
				sx.Assert(failed, "a value can be written to a closed pipe")
				sx.Reach("closed")
				continue
			}
			if !rd {
				// Nobody can read it.
				continue
			}
			sx.Assert(!failed, "a value cannot be written")
			sx.Assert(r == v.C, "writing does not return what was written")
			queue = append(queue, s)
		case 2, 3, 4: // read-list, read, read-line
			if rd && len(queue) == 0 && wr {
				// Would wait.
				continue
			}
			line := op == 4
			if rd && len(queue) > 0 && isPipe && queue[0].line && !line {
				// A line is not a value.
				continue
			}
			name := []string{"read-list", "read", "read-line"}[op-2]
			if (!rd || len(queue) == 0) && op == 3 {
				// There is no first element.
				_, _, failed := hv.Call(func() cell.I { return cm("read")(c, pair.Null) })
				sx.Assert(failed || !rd || len(queue) == 0, "?")
				continue
			}
			r, err, failed := hv.Call(func() cell.I { return cm(name)(c, pair.Null) })
			sx.Assert(!failed, name+" fails: "+err)
			if !rd || len(queue) == 0 {
				sx.Assert(r == pair.Null, name+" does not report the end")
				sx.Reach("end")
				continue
			}
			s := queue[0]
			queue = queue[1:]
			switch {
			case line && isPipe:
				sx.Assert(str.Is(r) && str.To(r).String() == s.text, "a line read is not the line written")
				sx.Reach("line")
			case line:
				t := common.String(s.v.C)
				sx.Assert(str.Is(r) && str.To(r).String() == t, "a line read from a channel is not the text of the value written")
				sx.Reach("line")
			case op == 3:
				sx.Assert(hv.Means(r, s.v.Car), "read does not return the first element of what was written")
				sx.Reach("value")
			default:
				sx.Assert(hv.Means(r, s.v), "read-list does not return what was written")
				sx.Reach("value")
			}
			sx.Assert(hv.Kept(s.v), "reading changes what was written")
		case 5:
			if !isPipe && !wr {
				continue
			}
			shut(c, "writer-close")
			wr = false
			sx.Reach("close")
		case 6:
			shut(c, "reader-close")
			rd = rd && !isPipe
			sx.Reach("close")
		case 7:
			if !isPipe && !wr {
				continue
			}
			shut(c, "close")
			wr = false
			rd = rd && !isPipe
			sx.Reach("close")
		case 8:
			return
		}
	}
}

func shut(c cell.I, how string) {
	r, err, failed := hv.Call(func() cell.I { return cm(how)(c, pair.Null) })
	sx.Assert(!failed, how+" fails: "+err)
	sx.Assert(r == pair.Null, how+" returns something")
}

// Crowd checks that records of several writers reach several readers whole,
// once, and in order.
func Crowd() {
	writers, readers, each := sx.Param("writers", 2), sx.Param("readers", 1), sx.Param("each", 2)
	lines := sx.Param("lines", 0) > 0

	var c cell.I
	if sx.Param("pipe", 0) > 0 {
		mos.PipeCap = sx.Param("cap", 5)
		c = pipe.New(nil, nil)
	} else {
		c = chn.New(int64(sx.Param("cap", 0)))
	}

	var ww, rr sync.WaitGroup

	payload := sx.Str("payload", sx.Param("n", 0))
	if lines {
		sx.Assume(strings.IndexByte(payload, '\n') < 0)
	}

	ww.Add(writers)
	for i := 0; i < writers; i++ {
		go func(i int) {
			defer ww.Done()
			for j := 0; j < each; j++ {
				s := str.New(string([]byte{byte('a' + i), byte('0' + j)}) + payload)
				if lines {
					cm("write-line")(c, list.New(s))
				} else {
					cm("write")(c, list.New(s))
				}
			}
		}(i)
	}

	got := make([][]string, readers)
	rr.Add(readers)
	for i := 0; i < readers; i++ {
		go func(i int) {
			defer rr.Done()
			for k := 0; k <= writers*each; k++ {
				var v cell.I
				if lines {
					v = cm("read-line")(c, pair.Null)
				} else {
					v = cm("read-list")(c, pair.Null)
				}
				if v == pair.Null {
					return
				}
				if !lines {
					sx.Assert(pair.Is(v) && pair.Cdr(v) == pair.Null, "records are mixed")
					v = pair.Car(v)
				}
				sx.Assert(str.Is(v), "records are mixed or split")
				got[i] = append(got[i], str.To(v).String())
			}
			sx.Fail("more records are read than were written")
		}(i)
	}

	ww.Wait()
	cm("writer-close")(c, pair.Null)
	rr.Wait()

	count := make([][]int, writers)
	for i := range count {
		count[i] = make([]int, each)
	}
	for _, g := range got {
		last := make([]int, writers)
		for i := range last {
			last[i] = -1
		}
		for _, s := range g {
			sx.Assert(len(s) == 2+len(payload) && s[2:] == payload, "records are mixed or split")
			i, j := int(s[0])-'a', int(s[1])-'0'
			sx.Assert(i >= 0 && i < writers && j >= 0 && j < each, "records are mixed or split")
			count[i][j]++
			sx.Assert(j > last[i], "records of one writer are read in another order")
			last[i] = j
		}
	}
	for i := range count {
		for _, n := range count[i] {
			sx.Assert(n == 1, "a record is lost or read more than once")
		}
	}
	sx.Reach("delivered")
}

// Closing checks that the ends of a pipe can be closed while it is used.
func Closing() {
	mos.PipeCap = sx.Param("cap", 5)
	c := pipe.New(nil, nil)

	var done sync.WaitGroup

	n := sx.Param("tasks", 3)
	done.Add(n)
	for i := 0; i < n; i++ {
		ops := []string{"close", "reader-close", "writer-close", "read-list", "read-line", "write", "write-line"}
		if i == 0 {
			// This one closes.
			ops = ops[:1]
		}
		op := ops[sx.Choice("op", len(ops))]
		again := i < 2 && sx.Param("again", 0) > 0
		go func() {
			defer done.Done()
			act(c, op)
			if again {
				act(c, op)
			}
		}()
	}
	done.Wait()
	sx.Assert(act(c, "read-list") == pair.Null, "reading from a closed pipe does not report the end")
	sx.Reach("closed")
}

func act(c cell.I, op string) (r cell.I) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case runtime.Error:
			sx.Fail(op + ": " + p.Error())
		case string:
			switch op {
			case "read-list", "read-line", "write", "write-line":
				// The end was closed.
			default:
				sx.Fail(op + " fails: " + p)
			}
		default:
			panic(p)
		}
	}()
	return cm(op)(c, list.New(str.New("ab")))
}
