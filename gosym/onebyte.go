package main

// A complete decision procedure for constraints over a single variable of at
// most 8 bits: the set of its values that satisfy each constraint is computed
// once, and their intersection decides feasibility. It only decides which
// branches are feasible; assertions always go to the SMT solver.

type byteSet [4]uint64

func (c *TermCtx) byteVar(t *Term) *Term {
	for t.op != OVar {
		next := t
		for _, a := range t.args {
			if len(a.vars) > 0 {
				next = a
				break
			}
		}
		if next == t {
			return nil
		}
		t = next
	}
	if t.sort != SBV || t.w > 8 {
		return nil
	}
	return t
}

// bits returns the values of t's only variable for which t holds, or nil.
func (c *TermCtx) bits(t *Term) *byteSet {
	if t.bset != nil {
		return t.bset
	}
	if t.nobits || t.sort != SBool || len(t.vars) != 1 {
		return nil
	}
	v := c.byteVar(t)
	if v == nil || !small(t, map[*Term]bool{}) {
		t.nobits = true
		return nil
	}
	n := 1 << v.w
	m := make(Model, v.vi+1)
	var b byteSet
	old := c.epoch
	_ = old
	for x := 0; x < n; x++ {
		m[v.vi] = MVal{u: uint64(x)}
		c.epoch++
		if c.Eval(t, m).u == 1 {
			b[x>>6] |= 1 << (x & 63)
		}
	}
	c.epoch++
	t.bset = &b
	return t.bset
}

// small limits the size of the terms handled.
func small(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if len(seen) > 400 || t.sort != SBool && t.sort != SBV {
		return false
	}
	for _, a := range t.args {
		if !small(a, seen) {
			return false
		}
	}
	return true
}

// oneByte decides whether the constraints cons (which share a variable) can
// hold together; ok is false when it cannot tell.
func (w *Worker) oneByte(cons []*Term) (val uint64, vi int32, sat, ok bool) {
	all := byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	if len(cons[0].vars) != 1 {
		return
	}
	vi = cons[0].vars[0]
	for _, t := range cons {
		if len(t.vars) != 1 || t.vars[0] != vi {
			return
		}
	}
	for _, t := range cons {
		b := w.C.bits(t)
		if b == nil {
			return
		}
		for i := range all {
			all[i] &= b[i]
		}
	}
	for x := uint64(0); x < 256; x++ {
		if all[x>>6]&(1<<(x&63)) != 0 {
			return x, vi, true, true
		}
	}
	return 0, vi, false, true
}

// confirm asks the SMT solver to confirm what oneByte decided on this path:
// the path condition implies every branch outcome that was taken to be the
// only one possible.
func (w *Worker) confirm() {
	if len(w.implied) == 0 {
		return
	}
	done := map[int32]bool{}
	for _, t := range w.implied {
		vi := t.vars[0]
		if done[vi] {
			continue
		}
		done[vi] = true
		var pc, no []*Term
		for _, c := range w.pc {
			if len(c.vars) == 1 && c.vars[0] == vi {
				pc = append(pc, c)
			}
		}
		for _, c := range w.implied {
			if c.vars[0] == vi {
				no = append(no, w.C.Not(c))
			}
		}
		q := w.C.And(append(pc, w.C.Or(no...))...)
		if w.confirmed[q] {
			continue
		}
		w.confirmed[q] = true
		if q == w.C.False {
			continue
		}
		res := Sat
		if q != w.C.True {
			res, _, _ = w.S.Check([]*Term{q})
		}
		if res != Unsat {
			w.X.note("the solver does not confirm a branch outcome")
			w.X.incomplete.Store(true)
		}
	}
}

// imply records that t was taken to follow from the path condition.
func (w *Worker) imply(t *Term) {
	w.implied = append(w.implied, t)
}
