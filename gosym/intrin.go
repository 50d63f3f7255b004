package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics: functions of the Go runtime and standard library that are
// modelled rather than executed.

const sxPath = "github.com/michaelmacinnis/oh/internal/zzverif/sx"

var visibleIntr = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).RLock": true,
	"(*sync.Mutex).TryLock": true, "(*sync.WaitGroup).Wait": true, "(*sync.Cond).Wait": true,
	"(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RUnlock": true,
	"runtime.Gosched": true, "time.Sleep": true, sxPath + ".Yield": true, sxPath + ".Point": true,
	"(*sync.Cond).Signal": false, "(*sync.Cond).Broadcast": false,
	"sync/atomic.LoadInt32": true, "sync/atomic.StoreInt32": true, "sync/atomic.AddInt32": true,
	"sync/atomic.CompareAndSwapInt32": true, "sync/atomic.LoadInt64": true, "sync/atomic.StoreInt64": true,
	"sync/atomic.AddInt64": true, "sync/atomic.CompareAndSwapInt64": true,
	"sync/atomic.LoadUint32": true, "sync/atomic.StoreUint32": true, "sync/atomic.AddUint32": true,
	"sync/atomic.CompareAndSwapUint32": true, "sync/atomic.LoadUint64": true, "sync/atomic.StoreUint64": true,
	"(*sync/atomic.Value).Load": true, "(*sync/atomic.Value).Store": true,
}

func init() {
	// Unlock is a release; switching before it adds no new behaviours for
	// lock-protected code, except for code that polls. Keep it invisible.
	delete(visibleIntr, "(*sync.Mutex).Unlock")
	delete(visibleIntr, "(*sync.RWMutex).Unlock")
	delete(visibleIntr, "(*sync.RWMutex).RUnlock")
}

func ptr(w *Worker, v Value) *Value {
	p, ok := v.(*Value)
	if !ok || p == nil {
		w.nilDeref(v)
	}
	return p
}

func goStr(w *Worker, v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		// concretize every byte
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			b[i] = byte(w.concretize(x))
		}
		return string(b)
	}
	panic(fmt.Sprintf("goStr %T", v))
}

func intrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	done := func(v Value) (Value, ctl) { return v, cNext }

	// --- runtime ---
	nop := func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return nil, cNext }
	for _, n := range []string{
		"runtime.SetFinalizer", "runtime.GC", "runtime.KeepAlive", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"math/rand.Seed", "internal/msan.Read", "internal/msan.Write", "internal/asan.Read", "internal/asan.Write",
		"(*strings.Builder).copyCheck",
	} {
		m[n] = nop
	}
	m["reflect.DeepEqual"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return deepEqual(a[0], a[1], 0), cNext
	}
	m["runtime.Gosched"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		if w.cur.phase == 2 {
			w.cur.phase = 0
			return nil, cNext
		}
		w.cur.phase = 2
		return nil, cYield
	}
	m["time.Sleep"] = m["runtime.Gosched"]
	m["time.Now"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return zero(ni.in.(*ssa.Call).Type()), cNext
	}
	m["runtime.NumCPU"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return int64(1), cNext }
	m["runtime.GOMAXPROCS"] = m["runtime.NumCPU"]
	m["internal/abi.NoEscape"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return a[0], cNext }
	m["internal/godebug.New"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return (*Value)(nil), cNext
	}
	m["(*internal/godebug.Setting).Value"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return "", cNext }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop

	// --- sync ---
	m["(*sync.Mutex).Lock"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		if o.locked {
			return nil, w.block(w.cur, "sync.Mutex.Lock", func() bool { return !o.locked })
		}
		w.modSync(o)
		o.locked = true
		o.owner = w.cur
		w.race.acquire(w, w.cur, o.vc)
		return nil, cNext
	}
	m["(*sync.Mutex).TryLock"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		if o.locked {
			return false, cNext
		}
		w.modSync(o)
		o.locked = true
		o.owner = w.cur
		w.race.acquire(w, w.cur, o.vc)
		return true, cNext
	}
	m["(*sync.Mutex).Unlock"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		if !o.locked {
			w.fatal("sync: unlock of unlocked mutex")
		}
		w.modSync(o)
		o.locked = false
		o.owner = nil
		o.vc = w.race.releaseInto(w, w.cur, o.vc)
		return nil, cNext
	}
	m["(*sync.RWMutex).Lock"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		g := w.cur
		if o.locked || o.readers > 0 {
			if g.phase != 3 {
				g.phase = 3
				w.modSync(o)
				o.wwait++
			}
			return nil, w.block(g, "sync.RWMutex.Lock", func() bool { return !o.locked && o.readers == 0 })
		}
		w.modSync(o)
		if g.phase == 3 {
			g.phase = 0
			o.wwait--
		}
		o.locked = true
		o.owner = g
		w.race.acquire(w, g, o.vc)
		w.race.acquire(w, g, o.rvc)
		return nil, cNext
	}
	m["(*sync.RWMutex).RLock"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		if o.locked || o.wwait > 0 {
			return nil, w.block(w.cur, "sync.RWMutex.RLock", func() bool { return !o.locked && o.wwait == 0 })
		}
		w.modSync(o)
		o.readers++
		w.race.acquire(w, w.cur, o.vc)
		return nil, cNext
	}
	m["(*sync.RWMutex).Unlock"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		if !o.locked {
			w.fatal("sync: Unlock of unlocked RWMutex")
		}
		w.modSync(o)
		o.locked = false
		o.vc = w.race.releaseInto(w, w.cur, o.vc)
		return nil, cNext
	}
	m["(*sync.RWMutex).RUnlock"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		if o.readers == 0 {
			w.fatal("sync: RUnlock of unlocked RWMutex")
		}
		w.modSync(o)
		o.readers--
		o.rvc = w.race.releaseInto(w, w.cur, o.rvc)
		return nil, cNext
	}
	m["(*sync.WaitGroup).Add"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		w.modSync(o)
		o.count += w.concretize(a[1])
		if o.count < 0 {
			panic(goPanic{Iface{t: canon(types.Typ[types.String]), v: "sync: negative WaitGroup counter"}})
		}
		o.vc = w.race.releaseInto(w, w.cur, o.vc)
		return nil, cNext
	}
	m["(*sync.WaitGroup).Done"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return m["(*sync.WaitGroup).Add"](w, fr, ni, []Value{a[0], int64(-1)})
	}
	m["(*sync.WaitGroup).Wait"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		if o.count > 0 {
			return nil, w.block(w.cur, "sync.WaitGroup.Wait", func() bool { return o.count == 0 })
		}
		w.race.acquire(w, w.cur, o.vc)
		return nil, cNext
	}
	m["(*sync.Cond).Wait"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		// c.L.Unlock(); wait; c.L.Lock() -- the locker must be a *Mutex or
		// the write side of a *RWMutex, both keyed by address.
		p := ptr(w, a[0])
		o := w.syncOf(p)
		g := w.cur
		L := w.condLocker(p)
		lo := w.syncOf(L)
		switch g.phase {
		case 0:
			if !lo.locked {
				w.fatal("sync: unlock of unlocked mutex")
			}
			w.modSync(lo)
			lo.locked = false
			lo.vc = w.race.releaseInto(w, g, lo.vc)
			w.modSync(o)
			x := &waiter{g: g, tick: g.tick}
			o.notif = append(append(make([]*waiter, 0, len(o.notif)+1), o.notif...), x)
			g.phase = 4
			return nil, w.block(g, "sync.Cond.Wait", nil)
		case 1: // woken
			g.phase = 5
			fallthrough
		case 5:
			if lo.locked {
				return nil, w.block(g, "sync.Cond.Wait (lock)", func() bool { return !lo.locked })
			}
			w.modSync(lo)
			lo.locked = true
			lo.owner = g
			w.race.acquire(w, g, lo.vc)
			g.phase = 0
			return nil, cNext
		}
		panic("cond phase")
	}
	m["(*sync.Cond).Signal"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		var live []*waiter
		for _, x := range o.notif {
			if x.live() {
				live = append(live, x)
			}
		}
		if len(live) > 0 {
			w.modSync(o)
			x := live[0]
			o.notif = live[1:]
			w.race.handoff1(w, w.cur, x.g)
			w.wake(x, nil, true)
		}
		return nil, cNext
	}
	m["(*sync.Cond).Broadcast"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		o := w.syncOf(ptr(w, a[0]))
		w.modSync(o)
		for _, x := range o.notif {
			if x.live() {
				w.race.handoff1(w, w.cur, x.g)
				w.wake(x, nil, true)
			}
		}
		o.notif = nil
		return nil, cNext
	}
	m["(*sync.Pool).Put"] = nop
	m["(*sync.Pool).Get"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		st := (*ptr(w, a[0])).(Struct)
		nf := st[len(st)-1].(*Closure)
		if nf == nil {
			return Iface{}, cNext
		}
		f := w.callFrame(nf.fn, nf.env, nil, fr, ni.dst)
		fr.pc++
		w.cur.top = f
		return nil, cJumped
	}

	// --- sync/atomic ---
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		wd, sg := uint8(64), true
		switch ty {
		case "Int32":
			wd = 32
		case "Uint32":
			wd, sg = 32, false
		case "Uint64", "Uintptr":
			sg = false
		}
		m["sync/atomic.Load"+ty] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
			p := ptr(w, a[0])
			w.race.atomic(w, w.cur, p)
			return *p, cNext
		}
		m["sync/atomic.Store"+ty] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
			p := ptr(w, a[0])
			w.race.atomic(w, w.cur, p)
			w.set(p, a[1])
			return nil, cNext
		}
		m["sync/atomic.Swap"+ty] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
			p := ptr(w, a[0])
			w.race.atomic(w, w.cur, p)
			old := *p
			w.set(p, a[1])
			return old, cNext
		}
		m["sync/atomic.Add"+ty] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
			p := ptr(w, a[0])
			w.race.atomic(w, w.cur, p)
			n := w.intAdd(*p, a[1], wd, sg)
			w.set(p, n)
			return n, cNext
		}
		m["sync/atomic.CompareAndSwap"+ty] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
			p := ptr(w, a[0])
			w.race.atomic(w, w.cur, p)
			if w.branch(w.equal(*p, a[1])) {
				w.set(p, a[2])
				return true, cNext
			}
			return false, cNext
		}
	}
	m["(*sync/atomic.Value).Load"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		p := ptr(w, a[0])
		w.race.atomic(w, w.cur, p)
		return (*p).(Struct)[0], cNext
	}
	m["(*sync/atomic.Value).Store"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		p := ptr(w, a[0])
		w.race.atomic(w, w.cur, p)
		w.set(&(*p).(Struct)[0], a[1])
		return nil, cNext
	}
	// atomic.Pointer[T]: last field holds the pointer.
	m["(*sync/atomic.Pointer[T]).Load"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		p := ptr(w, a[0])
		w.race.atomic(w, w.cur, p)
		st := (*p).(Struct)
		v := st[len(st)-1]
		if up, ok := v.(UnsafePtr); ok {
			if up.v == nil {
				return (*Value)(nil), cNext
			}
			return up.v, cNext
		}
		return v, cNext
	}
	m["(*sync/atomic.Pointer[T]).Store"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		p := ptr(w, a[0])
		w.race.atomic(w, w.cur, p)
		st := (*p).(Struct)
		w.set(&st[len(st)-1], a[1])
		return nil, cNext
	}
	m["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		p := ptr(w, a[0])
		w.race.atomic(w, w.cur, p)
		st := (*p).(Struct)
		cur := st[len(st)-1]
		if up, ok := cur.(UnsafePtr); ok {
			cur = (*Value)(nil)
			if up.v != nil {
				cur = up.v
			}
		}
		if cur == a[1] {
			w.set(&st[len(st)-1], a[2])
			return true, cNext
		}
		return false, cNext
	}

	// --- bytes and strings kernels ---
	idxByte := func(w *Worker, b []Value, c Value) Value {
		C := w.C
		ct := w.toBV(c, 8)
		acc := C.BV(^uint64(0), 64)
		for i := len(b) - 1; i >= 0; i-- {
			acc = C.Ite(C.Eq(w.toBV(b[i], 8), ct), C.BV(uint64(i), 64), acc)
		}
		return w.lower(acc, true)
	}
	lastIdxByte := func(w *Worker, b []Value, c Value) Value {
		C := w.C
		ct := w.toBV(c, 8)
		acc := C.BV(^uint64(0), 64)
		for i := 0; i < len(b); i++ {
			acc = C.Ite(C.Eq(w.toBV(b[i], 8), ct), C.BV(uint64(i), 64), acc)
		}
		return w.lower(acc, true)
	}
	m["internal/bytealg.IndexByteString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(int64); ok {
				return int64(strings.IndexByte(s, byte(c))), cNext
			}
		}
		return done(idxByte(w, strBytes(a[0]), a[1]))
	}
	m["internal/bytealg.IndexByte"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(idxByte(w, a[0].(Slice).s, a[1]))
	}
	m["internal/bytealg.LastIndexByteString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(lastIdxByte(w, strBytes(a[0]), a[1]))
	}
	m["internal/bytealg.LastIndexByte"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(lastIdxByte(w, a[0].(Slice).s, a[1]))
	}
	count := func(w *Worker, b []Value, c Value) Value {
		C := w.C
		ct := w.toBV(c, 8)
		acc := C.BV(0, 64)
		for _, x := range b {
			acc = C.Bin(OAdd, acc, C.Ite(C.Eq(w.toBV(x, 8), ct), C.BV(1, 64), C.BV(0, 64)))
		}
		return w.lower(acc, true)
	}
	m["internal/bytealg.CountString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(count(w, strBytes(a[0]), a[1]))
	}
	m["internal/bytealg.Count"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(count(w, a[0].(Slice).s, a[1]))
	}
	m["internal/bytealg.Equal"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(w.strEq(normStr(a[0].(Slice).s), normStr(a[1].(Slice).s)))
	}
	cmp3 := func(w *Worker, x, y Value) Value {
		lt := w.toBool(w.strCmp(token.LSS, x, y))
		eq := w.toBool(w.strEq(x, y))
		return w.lower(w.C.Ite(eq, w.C.BV(0, 64), w.C.Ite(lt, w.C.BV(^uint64(0), 64), w.C.BV(1, 64))), true)
	}
	m["internal/bytealg.Compare"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(cmp3(w, normStr(a[0].(Slice).s), normStr(a[1].(Slice).s)))
	}
	m["internal/bytealg.CompareString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(cmp3(w, a[0], a[1]))
	}
	index := func(w *Worker, s, sub Value) Value {
		if x, ok := s.(string); ok {
			if y, ok := sub.(string); ok {
				return int64(strings.Index(x, y))
			}
		}
		n, k := strLen(s), strLen(sub)
		C := w.C
		acc := C.BV(^uint64(0), 64)
		for i := n - k; i >= 0; i-- {
			acc = C.Ite(w.toBool(w.strEq(strSlice(s, i, i+k), sub)), C.BV(uint64(i), 64), acc)
		}
		return w.lower(acc, true)
	}
	m["strings.Index"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return done(index(w, a[0], a[1])) }
	m["internal/stringslite.Index"] = m["strings.Index"]
	m["internal/bytealg.IndexString"] = m["strings.Index"]
	m["bytes.Index"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return done(index(w, normStr(a[0].(Slice).s), normStr(a[1].(Slice).s)))
	}
	m["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		n := int(w.concretize(a[0]))
		s := make([]Value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return Slice{s}, cNext
	}
	m["unicode/utf8.DecodeRuneInString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		r, n := w.decodeRune(a[0], 0)
		return Tuple{r, int64(n)}, cNext
	}
	m["unicode/utf8.DecodeRune"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		s := a[0].(Slice).s
		if len(s) > 4 {
			s = s[:4]
		}
		r, n := w.decodeRune(normStr(append([]Value(nil), s...)), 0)
		return Tuple{r, int64(n)}, cNext
	}
	m["unicode/utf8.RuneCountInString"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		n := 0
		for i := 0; i < strLen(a[0]); n++ {
			_, k := w.decodeRune(a[0], i)
			i += k
		}
		return int64(n), cNext
	}
	m["strings.ToValidUTF8"] = nil
	delete(m, "strings.ToValidUTF8")

	// --- math ---
	f1 := func(f func(float64) float64) intrinsic {
		return func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) { return f(a[0].(float64)), cNext }
	}
	for n, f := range map[string]func(float64) float64{
		"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log,
		"Exp": math.Exp, "Abs": math.Abs, "Log10": math.Log10, "Log2": math.Log2,
	} {
		m["math."+n] = f1(f)
	}
	m["math.Float64bits"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return int64(math.Float64bits(a[0].(float64))), cNext
	}
	m["math.Float64frombits"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return math.Float64frombits(uint64(w.concretize(a[0]))), cNext
	}
	m["math.Float32bits"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return int64(math.Float32bits(float32(a[0].(float64)))), cNext
	}
	m["math.Float32frombits"] = func(w *Worker, fr *Frame, ni *Instr, a []Value) (Value, ctl) {
		return float64(math.Float32frombits(uint32(w.concretize(a[0])))), cNext
	}

	addSX(m)
	addBig(m)
	return m
}

func (w *Worker) intAdd(x, y Value, wd uint8, sg bool) Value {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		return norm(a+b, wd, sg)
	}
	return w.lower(w.C.Bin(OAdd, w.toBV(x, wd), w.toBV(y, wd)), sg)
}

// condLocker returns the address of the mutex of a sync.Cond.
func (w *Worker) condLocker(p *Value) *Value {
	st := (*p).(Struct)
	for _, f := range st {
		if i, ok := f.(Iface); ok && i.t != nil {
			if q, ok := i.v.(*Value); ok {
				return q
			}
		}
	}
	w.unsupported("sync.Cond without locker")
	return nil
}

func (w *Worker) fatal(msg string) {
	w.violation("fatal", "fatal error: "+msg)
	panic(pathEnd{"violation"})
}

// uncaught is called when a goroutine dies of a panic.
func (w *Worker) uncaught(g *G, p *panicRec) {
	msg := w.panicText(p.val)
	w.violation("panic", fmt.Sprintf("uncaught panic: %s at %s", msg, p.where))
	panic(pathEnd{"violation"})
}

func (w *Worker) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		switch s := i.v.(type) {
		case string:
			return s
		case *SymStr:
			return w.modelStr(s)
		}
		if i.t != nil {
			return i.t.String() + ":" + show(i.v, 0)
		}
	}
	return show(v, 0)
}

func (w *Worker) modelStr(s Value) string {
	b := make([]byte, strLen(s))
	for i, x := range strBytes(s) {
		switch x := x.(type) {
		case int64:
			b[i] = byte(x)
		case *Term:
			b[i] = byte(w.C.Eval(x, w.model).u)
		}
	}
	return string(b)
}

func (w *Worker) stepLimit() {
	if w.X.opt.mustTerminate {
		w.violation("hang", fmt.Sprintf("no termination within %d steps", w.X.opt.maxSteps))
		panic(pathEnd{"violation"})
	}
	w.X.note("step budget exceeded at " + w.pos())
	w.X.incomplete.Store(true)
	panic(pathEnd{"steps"})
}

var _ = os.Stderr
