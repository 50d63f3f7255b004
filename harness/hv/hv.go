// Package hv builds arbitrary oh values together with what they mean.
package hv

import (
	"math/big"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/chn"
	"github.com/michaelmacinnis/oh/internal/common/type/env"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/obj"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// The kinds of values.
const (
	Num = iota
	Status
	Sym
	Str
	Null
	Pair
	Chan
	Env
	Obj
	True
	NKinds
)

// V is a value and its meaning.
type V struct {
	C        cell.I
	K        int
	R        *big.Rat
	S        string
	Car, Cdr *V
	ID       int
}

var ids = 0

// shared identities: several generated values may be the same object.
var pool [NKinds][]*V

// Opt bounds generation.
type Opt struct {
	Kinds []int // allowed kinds
	Len   int   // longest symbol or string
	Depth int   // nesting of pairs
	Ident int   // distinct objects per identity kind
}

// Gen makes an arbitrary value.
func Gen(name string, o Opt) *V {
	ks := o.Kinds
	if o.Depth <= 0 {
		var s []int
		for _, k := range ks {
			if k != Pair {
				s = append(s, k)
			}
		}
		ks = s
	}
	return Make(name, ks[sx.Choice(name+".kind", len(ks))], o)
}

// Make makes an arbitrary value of kind k.
func Make(name string, k int, o Opt) *V {
	v := &V{K: k}
	switch k {
	case Num:
		v.R = sx.Rat(name + ".num")
		v.C = num.Rat(new(big.Rat).Set(v.R))
	case Status:
		v.R = sx.Rat(name + ".status")
		v.C = status.Rat(new(big.Rat).Set(v.R))
	case Sym:
		v.S = sx.Str(name+".sym", sx.Choice(name+".len", o.Len+1))
		v.C = sym.New(v.S)
	case True:
		v.K = Sym
		v.S = "true"
		v.C = sym.True
	case Str:
		v.S = sx.Str(name+".str", sx.Choice(name+".len", o.Len+1))
		v.C = str.New(v.S)
	case Null:
		v.C = pair.Null
	case Pair:
		p := o
		p.Depth--
		v.Car = Gen(name+".car", p)
		v.Cdr = Gen(name+".cdr", p)
		v.C = pair.Cons(v.Car.C, v.Cdr.C)
	case Chan, Env, Obj:
		n := sx.Choice(name+".id", len(pool[k])+1)
		if n < len(pool[k]) {
			return pool[k][n]
		}
		ids++
		v.ID = ids
		switch k {
		case Chan:
			v.C = chn.New(1)
		case Env:
			v.C = env.New(nil)
		case Obj:
			v.C = obj.New(env.New(nil))
		}
		if len(pool[k]) < o.Ident {
			pool[k] = append(pool[k], v)
		}
	}
	return v
}

// Same is equality as it is meant to be.
func Same(a, b *V) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case Num, Status:
		return a.R.Cmp(b.R) == 0
	case Sym, Str:
		return a.S == b.S
	case Null:
		return true
	case Pair:
		return sx.And(Same(a.Car, b.Car), Same(a.Cdr, b.Cdr))
	}
	return a.ID == b.ID
}

// Truth is the truth value as it is meant to be.
func Truth(v *V) bool {
	switch v.K {
	case Num:
		return v.R.Sign() != 0
	case Status:
		return v.R.Sign() == 0
	case Null:
		return false
	}
	return true
}

// Kept reports whether the value still is what it was made to be.
func Kept(v *V) bool { return Means(v.C, v) }

// Means reports whether c is a cell with the meaning of v.
func Means(c cell.I, v *V) bool {
	switch v.K {
	case Num:
		return num.Is(c) && num.To(c).Rat().Cmp(v.R) == 0
	case Status:
		return status.Is(c) && status.To(c).Rat().Cmp(v.R) == 0
	case Sym:
		return sym.Is(c) && sym.To(c).String() == v.S
	case Str:
		return str.Is(c) && str.To(c).String() == v.S
	case Null:
		return c == pair.Null
	case Pair:
		return c != pair.Null && pair.Is(c) && Means(pair.Car(c), v.Car) && Means(pair.Cdr(c), v.Cdr)
	}
	return c == v.C
}

// Call runs f and returns its result, or reports that it raised an error.
func Call(f func() cell.I) (r cell.I, err string, failed bool) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case sx.Failure:
			panic(p)
		case sx.Skip:
			panic(p)
		case string:
			err, failed = p, true
		case error:
			err, failed = p.Error(), true
		default:
			err, failed = "?", true
		}
	}()
	r = f()
	return
}
