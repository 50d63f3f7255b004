// Package sx is the interface between harnesses and the symbolic executor.
// Executed natively, inputs come from a counterexample file and assertions
// are checked for real; in the executor the functions below are intercepted.
package sx

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
	"time"
)

// RuntimeError is the type of run-time panics in the executor.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

type replay struct {
	Inputs map[string]string `json:"inputs"`
	Params map[string]int    `json:"params"`
}

var (
	data  replay
	names = map[string]int{}
	// Reached records the Reach marks hit.
	Reached = map[string]bool{}
)

// Load reads a counterexample (native execution only).
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &data)
}

// Failure is the panic value of a failed assertion.
type Failure string

// Skip is the panic value of a failed assumption.
type Skip struct{}

func fresh(name string) (string, bool) {
	n := names[name]
	names[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	v, ok := data.Inputs[name]
	return v, ok
}

func num(name string) int64 {
	v, ok := fresh(name)
	if !ok {
		return 0
	}
	i, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		panic("bad input " + name + "=" + v)
	}
	return i
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(num(name)) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return num(name) != 0 }

// Int is an arbitrary 64-bit integer.
func Int(name string) int { return int(num(name)) }

// Int32 is an arbitrary 32-bit integer.
func Int32(name string) int32 { return int32(num(name)) }

// Choice is an arbitrary value in [0, n), explored case by case.
func Choice(name string, n int) int { return int(num(name)) }

// Str is an arbitrary string of exactly n bytes.
func Str(name string, n int) string {
	v, ok := fresh(name)
	if !ok {
		return strings.Repeat("\x00", n)
	}
	b, err := hex.DecodeString(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Rat is an arbitrary rational.
func Rat(name string) *big.Rat { return ratVar(name) }

func ratVar(name string) *big.Rat {
	r := new(big.Rat)
	if v, ok := fresh(name); ok {
		r.SetString(v)
	}
	return r
}

// Big is an arbitrary integer.
func Big(name string) *big.Int { return bigVar(name) }

func bigVar(name string) *big.Int {
	r := new(big.Int)
	if v, ok := fresh(name); ok {
		r.SetString(v, 10)
	}
	return r
}

// Assume restricts attention to executions where c holds.
func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}

// In reports whether b is one of the bytes of set, without forking.
func In(b byte, set string) bool { return strings.IndexByte(set, b) >= 0 }

// Table is vals[b] (the last one for larger b), without forking.
func Table(b byte, vals []int32) int32 {
	if int(b) >= len(vals) {
		return vals[len(vals)-1]
	}
	return vals[b]
}

// And and Or combine conditions without forking.
func And(a, b bool) bool { return a && b }

// Or is disjunction without forking.
func Or(a, b bool) bool { return a || b }

// Assert checks c.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure(msg))
	}
}

// Fail reports a failure.
func Fail(msg string) { panic(Failure(msg)) }

// Reach marks a point that some execution must reach.
func Reach(label string) { Reached[label] = true }

// Param is a bound set by the check's configuration.
func Param(name string, def int) int {
	if v, ok := data.Params[name]; ok {
		return v
	}
	return def
}

// Symbolic is true in the executor.
func Symbolic() bool { return false }

// Concrete forces a value to be concrete (forking over its values).
func Concrete(n int) int { return n }

// ConcreteStr forces a string to be concrete (forking over its values).
func ConcreteStr(s string) string { return s }

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// Log records an event in the counterexample's trace.
func Log(s string) {
	if os.Getenv("SX_LOG") != "" {
		fmt.Fprintln(os.Stderr, "log:", s)
	}
}

// Quiesce waits until no other goroutine can run.
func Quiesce() { time.Sleep(150 * time.Millisecond) }

// Blocked is the number of other goroutines that cannot run.
func Blocked() int { return 0 }

// Enter begins a section executed without interference.
func Enter() {}

// Leave ends it.
func Leave() {}

// Depth is the depth of the Go call stack.
func Depth() int {
	pc := make([]uintptr, 65536)
	return runtime.Callers(1, pc)
}

// Size counts the objects that can be reached from v.
func Size(v any) int {
	type key struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[key]bool{}
	var walk func(r reflect.Value)
	fresh := func(p unsafe.Pointer, t reflect.Type) bool {
		k := key{p, t}
		if p == nil || seen[k] {
			return false
		}
		seen[k] = true
		return true
	}
	walk = func(r reflect.Value) {
		switch r.Kind() {
		case reflect.Pointer:
			if fresh(r.UnsafePointer(), r.Type()) {
				walk(r.Elem())
			}
		case reflect.Interface:
			if !r.IsNil() {
				walk(r.Elem())
			}
		case reflect.Struct:
			for i := 0; i < r.NumField(); i++ {
				walk(r.Field(i))
			}
		case reflect.Array:
			for i := 0; i < r.Len(); i++ {
				walk(r.Index(i))
			}
		case reflect.Slice:
			if r.Len() > 0 && fresh(r.UnsafePointer(), r.Type()) {
				for i := 0; i < r.Len(); i++ {
					walk(r.Index(i))
				}
			}
		case reflect.Map:
			if fresh(r.UnsafePointer(), r.Type()) {
				for _, k := range r.MapKeys() {
					walk(k)
					walk(r.MapIndex(k))
				}
			}
		}
	}
	walk(reflect.ValueOf(v))
	return len(seen)
}

func swapAny(s any, i, j int) { reflect.Swapper(s)(i, j) }

func lenAny(s any) int { return reflect.ValueOf(s).Len() }

func typeName(v any) string { return fmt.Sprintf("%T", v) }

func kindOf(v any) (int, int, string) {
	r := reflect.ValueOf(v)
	switch {
	case !r.IsValid():
		return 0, 0, ""
	case r.CanInt():
		return 1, int(r.Int()), ""
	case r.CanUint():
		return 1, int(r.Uint()), ""
	case r.Kind() == reflect.String:
		return 2, 0, r.String()
	}
	return 0, 0, ""
}

// ExpectExit announces that the process is about to end with this code.
func ExpectExit(code int) { fmt.Printf("\nSXEXPECT %d\n", code&255) }

// Point is a scheduling point.
func Point() {}

// Await blocks until *p differs from old.
func Await(p *int, old int) { panic("Await is only available in the executor") }

// Acquire and Release order memory accesses around modelled system calls.
func Acquire(p *int) {}

// Release publishes the caller's memory accesses.
func Release(p *int) {}

// Main runs one harness natively on a counterexample.
func Main(hs map[string][2]func()) {
	h, ok := hs[os.Args[1]]
	if !ok {
		fmt.Println("SXRESULT error no harness")
		os.Exit(2)
	}
	if err := Load(os.Args[2]); err != nil {
		fmt.Println("SXRESULT error " + err.Error())
		os.Exit(2)
	}
	os.Args = []string{"oh"}
	defer func() {
		switch r := recover().(type) {
		case nil:
			fmt.Println("\nSXRESULT ok")
		case Skip:
			fmt.Println("\nSXRESULT skip")
		case Failure:
			fmt.Println("\nSXRESULT fail " + strings.ReplaceAll(string(r), "\n", "\\n"))
		default:
			fmt.Printf("\nSXRESULT fail uncaught panic: %v\n", r)
		}
		os.Exit(0)
	}()
	if h[0] != nil {
		h[0]()
	}
	h[1]()
}
