package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Runtime values. Integers of every type are int64 (unsigned types hold the
// zero-extended pattern), or *Term when symbolic; strings are Go strings or
// *SymStr; pointers are *Value; structs and arrays are slices of Value.

type Value = any

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
	Slice  struct{ s []Value }
)

type SymStr struct {
	b []Value // int64 (0..255) or *Term (BV8)
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *Fn
	env []Value
}

type UnsafePtr struct{ v Value }

type mapEntry struct {
	key, val Value
	dead     bool
}

type Map struct {
	idx     map[any]int
	entries []mapEntry
	n       int
	sym     int // live entries with symbolic keys
	kt      types.Type
	et      types.Type
	race    Value // cell standing for the map in race detection
}

type mapIter struct {
	m     *Map
	order []int
	pos   int
}

type strIter struct {
	s   Value
	pos int
}

// Chan is a Go channel.
type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	bufVC  []VC
	vc     VC
}

type waiter struct {
	g    *G
	val  Value
	idx  int // select case index, or -1
	tick int // g.tick when enqueued; stale if different
	vc   VC
}

// Rat and Int values held in math/big cells.
type BigRat struct{ t *Term }
type BigInt struct{ t *Term }

func isSym(v Value) bool {
	switch v.(type) {
	case *Term, *SymStr:
		return true
	}
	return false
}

var (
	canonMu  sync.Mutex
	canonTab typeutil.Map
	canonC   sync.Map
)

// canon returns the canonical representative of a type, so that identical
// types compare equal as interface values.
func canon(t types.Type) types.Type {
	if c, ok := canonC.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	c := canonTab.At(t)
	if c == nil {
		canonTab.Set(t, t)
		c = t
	}
	canonC.Store(t, c)
	return c.(types.Type)
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func norm(v int64, w uint8, signed bool) int64 {
	if w == 64 {
		return v
	}
	if signed {
		return sext(uint64(v), w)
	}
	return int64(uint64(v) & mask(w))
}

type zeroInfo struct {
	agg bool
	v   Value
	mk  func() Value
}

var zeroC sync.Map

func zero(t types.Type) Value {
	if z, ok := zeroC.Load(t); ok {
		zi := z.(*zeroInfo)
		if zi.agg {
			return zi.mk()
		}
		return zi.v
	}
	zi := zero1(t)
	zeroC.Store(t, zi)
	if zi.agg {
		return zi.mk()
	}
	return zi.v
}

func zero1(t types.Type) *zeroInfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return &zeroInfo{v: UnsafePtr{}}
		case u.Info()&types.IsBoolean != 0:
			return &zeroInfo{v: false}
		case u.Info()&types.IsInteger != 0:
			return &zeroInfo{v: int64(0)}
		case u.Info()&types.IsFloat != 0:
			return &zeroInfo{v: float64(0)}
		case u.Info()&types.IsComplex != 0:
			return &zeroInfo{v: complex128(0)}
		case u.Info()&types.IsString != 0:
			return &zeroInfo{v: ""}
		case u.Kind() == types.UntypedNil:
			return &zeroInfo{v: Iface{}}
		}
	case *types.Pointer:
		return &zeroInfo{v: (*Value)(nil)}
	case *types.Slice:
		return &zeroInfo{v: Slice{}}
	case *types.Map:
		return &zeroInfo{v: (*Map)(nil)}
	case *types.Chan:
		return &zeroInfo{v: (*Chan)(nil)}
	case *types.Signature:
		return &zeroInfo{v: (*Closure)(nil)}
	case *types.Interface:
		return &zeroInfo{v: Iface{}}
	case *types.Struct:
		n := u.NumFields()
		return &zeroInfo{agg: true, mk: func() Value {
			s := make(Struct, n)
			for i := range s {
				s[i] = zero(u.Field(i).Type())
			}
			return s
		}}
	case *types.Array:
		n := int(u.Len())
		return &zeroInfo{agg: true, mk: func() Value {
			s := make(Array, n)
			for i := range s {
				s[i] = zero(u.Elem())
			}
			return s
		}}
	case *types.Tuple:
		n := u.Len()
		return &zeroInfo{agg: true, mk: func() Value {
			s := make(Tuple, n)
			for i := range s {
				s[i] = zero(u.At(i).Type())
			}
			return s
		}}
	}
	panic(fmt.Sprintf("zero: %v", t))
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

// normStr turns a byte list into a string value.
func normStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			return &SymStr{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		b := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = int64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return int64(v[i])
	case *SymStr:
		return v.b[i]
	}
	panic("strAt")
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return normStr(v.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strCat(a, b Value) Value {
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		return as + bs
	}
	if aok && as == "" {
		return b
	}
	if bok && bs == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	n := make([]Value, 0, len(x)+len(y))
	n = append(n, x...)
	n = append(n, y...)
	return &SymStr{b: n}
}

// show renders a value for reports.
func show(v Value, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch v := v.(type) {
	case nil:
		return "<undef>"
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		return strconv.FormatBool(v)
	case string:
		return strconv.Quote(v)
	case *Term:
		return v.String()
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("sym\"")
		for _, b := range v.b {
			switch b := b.(type) {
			case int64:
				q := strconv.Quote(string([]byte{byte(b)}))
				sb.WriteString(q[1 : len(q)-1])
			default:
				sb.WriteString("?")
			}
		}
		sb.WriteString("\"")
		return sb.String()
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", v.t, show(v.v, depth+1))
	case *Value:
		if v == nil {
			return "nilptr"
		}
		return "&" + show(*v, depth+1)
	case Struct:
		var p []string
		for _, f := range v {
			p = append(p, show(f, depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		var p []string
		for i, f := range v.s {
			if i > 8 {
				p = append(p, "...")
				break
			}
			p = append(p, show(f, depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Closure:
		if v == nil {
			return "nilfunc"
		}
		return v.fn.name
	case *ssa.Builtin:
		return v.Name()
	}
	return fmt.Sprintf("%T", v)
}
