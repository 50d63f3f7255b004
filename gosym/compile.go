package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Translation of SSA functions into a register form that executes quickly.

const (
	kConst  = -1
	kGlobal = -2
)

type opnd struct {
	k int32
	g int32
	v Value
}

type Instr struct {
	in   ssa.Instruction
	dst  int32
	a    opnd
	b    opnd
	c    opnd
	args []opnd

	// type info
	w      uint8
	signed bool
	kind   uint8
	t      types.Type
	t2     types.Type
	n      int
	aux    any
	fn     *Fn // static callee
	pure   bool
	visib  bool
}

type Block struct {
	idx    int
	phis   []*Instr
	instrs []*Instr
	preds  []int
	succs  []*Block
	pure   bool // all but the terminator pure
}

type Fn struct {
	name    string // intrinsic lookup name
	ssa     *ssa.Function
	once    sync.Once
	ready   atomic.Bool
	blocks  []*Block
	nregs   int
	params  []int32
	free    []int32
	recov   *Block
	results []int32 // registers (allocs) of named results, for the recover block
	intr    intrinsic
	model   *Fn
	nores   bool
	hits    int64
	nores0  int
	quiet   bool // accesses are not checked for races
}

var (
	fnTab  sync.Map // *ssa.Function -> *Fn
	fnByN  = map[string]*Fn{}
	fnMu   sync.Mutex
	buildM sync.Mutex
)

type Program struct {
	prog    *ssa.Program
	globals map[*ssa.Global]int32
	globalL []*ssa.Global
	gmu     sync.Mutex
	models  map[string]*ssa.Function // replacement by name
	intr    map[string]intrinsic
	rtErr   types.Type
}

var P *Program

func (p *Program) globalIdx(g *ssa.Global) int32 {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := int32(len(p.globalL))
	p.globals[g] = i
	p.globalL = append(p.globalL, g)
	return i
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func fnOf(f *ssa.Function) *Fn {
	if x, ok := fnTab.Load(f); ok {
		return x.(*Fn)
	}
	fn := &Fn{name: fnName(f), ssa: f}
	fn.quiet = strings.Contains(fn.name, "zzverif/sx.") || strings.Contains(fn.name, "zzverif/mos.") ||
		strings.HasSuffix(P.prog.Fset.Position(f.Pos()).Filename, "_quiet.go")
	if in, ok := P.intr[fn.name]; ok {
		fn.intr = in
	} else if m, ok := P.models[fn.name]; ok && m != f {
		fn.model = fnOf(m)
	}
	x, _ := fnTab.LoadOrStore(f, fn)
	return x.(*Fn)
}

func (fn *Fn) compile() {
	if fn.ready.Load() {
		return
	}
	fn.once.Do(func() {
		fn.compile1()
		fn.ready.Store(true)
	})
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if w, s, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return norm(i, w, s)
		}
		u, _ := constant.Uint64Val(v)
		return norm(int64(u), w, s)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, isTP := t.(*types.TypeParam); isTP {
			return int64(0)
		}
		panic(fmt.Sprintf("const of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return string(rune(i))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case b.Kind() == types.UnsafePointer:
		return UnsafePtr{}
	}
	panic(fmt.Sprintf("const %v", c))
}

func (fn *Fn) compile1() {
	f := fn.ssa
	if f.Blocks == nil && f.Pkg != nil {
		buildM.Lock()
		f.Pkg.Build()
		buildM.Unlock()
	}
	if f.Blocks == nil {
		fn.nores = true
		return
	}
	regs := map[ssa.Value]int32{}
	newReg := func(v ssa.Value) int32 {
		i := int32(len(regs))
		regs[v] = i
		return i
	}
	for _, p := range f.Params {
		fn.params = append(fn.params, newReg(p))
	}
	for _, p := range f.FreeVars {
		fn.free = append(fn.free, newReg(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	fn.nregs = len(regs)
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: kConst}
		case *ssa.Const:
			return opnd{k: kConst, v: constValue(v)}
		case *ssa.Global:
			return opnd{k: kGlobal, g: P.globalIdx(v)}
		case *ssa.Function:
			return opnd{k: kConst, v: &Closure{fn: fnOf(v)}}
		case *ssa.Builtin:
			return opnd{k: kConst, v: v}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, f))
		}
		return opnd{k: r}
	}
	blocks := make([]*Block, len(f.Blocks))
	for i := range blocks {
		blocks[i] = &Block{idx: i}
	}
	for i, b := range f.Blocks {
		nb := blocks[i]
		for _, p := range b.Preds {
			nb.preds = append(nb.preds, p.Index)
		}
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, blocks[s.Index])
		}
		nb.pure = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ni := &Instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ni.dst = regs[v]
				ni.t = v.Type()
				ni.w, ni.signed, _ = intInfo(v.Type())
			}
			compileInstr(ni, in, op)
			if _, ok := in.(*ssa.Phi); ok {
				nb.phis = append(nb.phis, ni)
				continue
			}
			switch in.(type) {
			case *ssa.If, *ssa.Jump:
			default:
				if !ni.pure {
					nb.pure = false
				}
			}
			nb.instrs = append(nb.instrs, ni)
		}
		if len(nb.phis) > 0 {
			nb.pure = false
		}
	}
	fn.blocks = blocks
	if f.Recover != nil {
		fn.recov = blocks[f.Recover.Index]
	}
}

func compileInstr(ni *Instr, in ssa.Instruction, op func(ssa.Value) opnd) {
	switch in := in.(type) {
	case *ssa.Alloc:
		ni.t2 = in.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		ni.a, ni.b = op(in.X), op(in.Y)
		ni.t2 = in.X.Type()
		ni.w, ni.signed, _ = intInfo(in.X.Type())
		switch in.Op {
		case token.QUO, token.REM:
		case token.SHL, token.SHR:
		case token.EQL, token.NEQ:
			switch in.X.Type().Underlying().(type) {
			case *types.Basic, *types.Pointer:
				ni.pure = true
			}
		default:
			ni.pure = true
		}
	case *ssa.UnOp:
		ni.a = op(in.X)
		ni.t2 = in.X.Type()
		switch in.Op {
		case token.NOT, token.SUB, token.XOR:
			ni.pure = true
		case token.MUL:
			if ni.a.k == kGlobal {
				ni.pure = true
			}
		case token.ARROW:
			ni.visib = true
		}
	case *ssa.Call:
		compileCall(ni, &in.Call, op)
	case *ssa.Defer:
		compileCall(ni, &in.Call, op)
	case *ssa.Go:
		compileCall(ni, &in.Call, op)
	case *ssa.ChangeInterface:
		ni.a = op(in.X)
		ni.pure = true
	case *ssa.ChangeType:
		ni.a = op(in.X)
		ni.pure = true
	case *ssa.Convert:
		ni.a = op(in.X)
		ni.t2 = in.X.Type()
		_, _, ok1 := intInfo(in.X.Type())
		_, _, ok2 := intInfo(in.Type())
		ni.pure = ok1 && ok2
	case *ssa.MultiConvert:
		ni.a = op(in.X)
		ni.t2 = in.X.Type()
	case *ssa.Extract:
		ni.a = op(in.Tuple)
		ni.n = in.Index
		ni.pure = true
	case *ssa.Field:
		ni.a = op(in.X)
		ni.n = in.Field
		ni.pure = true
	case *ssa.FieldAddr:
		ni.a = op(in.X)
		ni.n = in.Field
	case *ssa.If:
		ni.a = op(in.Cond)
	case *ssa.Index:
		ni.a, ni.b = op(in.X), op(in.Index)
		ni.t2 = in.X.Type()
		ni.w, ni.signed, _ = intInfo(in.Index.Type())
	case *ssa.IndexAddr:
		ni.a, ni.b = op(in.X), op(in.Index)
		ni.t2 = in.X.Type()
		ni.w, ni.signed, _ = intInfo(in.Index.Type())
	case *ssa.Jump:
	case *ssa.Lookup:
		ni.a, ni.b = op(in.X), op(in.Index)
		ni.t2 = in.X.Type()
		ni.w, ni.signed, _ = intInfo(in.Index.Type())
	case *ssa.MakeChan:
		ni.a = op(in.Size)
	case *ssa.MakeClosure:
		ni.fn = fnOf(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			ni.args = append(ni.args, op(b))
		}
	case *ssa.MakeInterface:
		ni.a = op(in.X)
		ni.t2 = canon(in.X.Type())
	case *ssa.MakeMap:
		if in.Reserve != nil {
			ni.a = op(in.Reserve)
		}
	case *ssa.MakeSlice:
		ni.a, ni.b = op(in.Len), op(in.Cap)
		ni.t2 = in.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MapUpdate:
		ni.a, ni.b, ni.c = op(in.Map), op(in.Key), op(in.Value)
	case *ssa.Next:
		ni.a = op(in.Iter)
	case *ssa.Panic:
		ni.a = op(in.X)
	case *ssa.Phi:
		for _, e := range in.Edges {
			ni.args = append(ni.args, op(e))
		}
	case *ssa.Range:
		ni.a = op(in.X)
		ni.t2 = in.X.Type()
	case *ssa.Return:
		for _, r := range in.Results {
			ni.args = append(ni.args, op(r))
		}
	case *ssa.RunDefers:
	case *ssa.Select:
		ni.visib = true
		for _, s := range in.States {
			ni.args = append(ni.args, op(s.Chan), op(s.Send))
		}
	case *ssa.Send:
		ni.a, ni.b = op(in.Chan), op(in.X)
		ni.visib = true
	case *ssa.Slice:
		ni.a, ni.b, ni.c = op(in.X), op(in.Low), op(in.High)
		ni.args = []opnd{op(in.Max)}
		ni.t2 = in.X.Type()
	case *ssa.SliceToArrayPointer:
		ni.a = op(in.X)
	case *ssa.Store:
		ni.a, ni.b = op(in.Addr), op(in.Val)
	case *ssa.TypeAssert:
		ni.a = op(in.X)
		ni.t2 = canon(in.AssertedType)
	default:
		panic(fmt.Sprintf("unsupported instruction %T", in))
	}
}

func compileCall(ni *Instr, c *ssa.CallCommon, op func(ssa.Value) opnd) {
	if c.IsInvoke() {
		ni.a = op(c.Value)
		ni.aux = c.Method
		ni.kind = 1
	} else {
		ni.a = op(c.Value)
		if b, ok := c.Value.(*ssa.Builtin); ok {
			ni.kind = 2
			ni.aux = b
			if len(c.Args) > 0 {
				ni.t2 = c.Args[0].Type()
			}
			switch b.Name() {
			case "len", "cap":
				if _, ok := c.Args[0].Type().Underlying().(*types.Chan); !ok {
					ni.pure = true
				}
			case "close":
				ni.visib = true
			}
		} else if f := c.StaticCallee(); f != nil {
			ni.fn = fnOf(f)
			if ni.fn.intr != nil && visibleIntr[ni.fn.name] {
				ni.visib = true
			}
		}
	}
	for _, a := range c.Args {
		ni.args = append(ni.args, op(a))
	}
}

var _ = math.Inf
