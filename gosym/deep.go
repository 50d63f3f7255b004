package main

import "go/types"

// deepEqual models reflect.DeepEqual on concrete acyclic values.
func deepEqual(x, y Value, depth int) bool {
	if depth > 1000 {
		panic("reflect.DeepEqual: too deep")
	}
	depth++
	all := func(a, b []Value) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !deepEqual(a[i], b[i], depth) {
				return false
			}
		}
		return true
	}
	switch a := x.(type) {
	case *Value:
		b := y.(*Value)
		if a == b || a == nil || b == nil {
			return a == b
		}
		return deepEqual(*a, *b, depth)
	case Struct:
		return all(a, y.(Struct))
	case Array:
		return all(a, y.(Array))
	case Slice:
		b := y.(Slice)
		return (a.s == nil) == (b.s == nil) && all(a.s, b.s)
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		return types.Identical(a.t, b.t) && deepEqual(a.v, b.v, depth)
	case *Map:
		b := y.(*Map)
		if a == b || a == nil || b == nil {
			return a == b
		}
		n := 0
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			n++
			ok := false
			for _, f := range b.entries {
				if !f.dead && deepEqual(e.key, f.key, depth) && deepEqual(e.val, f.val, depth) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		for _, f := range b.entries {
			if !f.dead {
				n--
			}
		}
		return n == 0
	case *Closure:
		b := y.(*Closure)
		return a == nil && b == nil
	case *Chan:
		return a == y.(*Chan)
	case *Term, *SymStr:
		panic("reflect.DeepEqual of symbolic values")
	}
	return x == y
}
