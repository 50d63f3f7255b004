package main

import "fmt"

// Happens-before race detection with vector clocks (FastTrack style, with
// undo logging so that it follows backtracking).

type VC []int32

func (v VC) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) join(o VC) VC {
	n := len(v)
	if len(o) > n {
		n = len(o)
	}
	r := make(VC, n)
	copy(r, v)
	for i, x := range o {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (v VC) inc(i int) VC {
	n := len(v)
	if i+1 > n {
		n = i + 1
	}
	r := make(VC, n)
	copy(r, v)
	r[i]++
	return r
}

// where is the position of an access.
type where struct {
	fr *Fn
	in *Instr
}

type access struct {
	g  int
	c  int32
	at where
}

type shadow struct {
	w      access // the last write (g < 0: none)
	reads  []access
	atomic VC
}

func (w *Worker) at() where {
	fr := w.cur.top
	if fr == nil || fr.blk == nil || fr.pc >= len(fr.blk.instrs) {
		return where{}
	}
	return where{fr.fn, fr.blk.instrs[fr.pc]}
}

func (x where) String() string {
	if x.fr == nil {
		return "?"
	}
	s := x.fr.name
	if x.in.in != nil && x.in.in.Pos().IsValid() {
		p := P.prog.Fset.Position(x.in.in.Pos())
		s += fmt.Sprintf(" (%s:%d)", p.Filename, p.Line)
	}
	return s
}

type raceState struct {
	cells map[*Value]*shadow
}

func newRace() *raceState { return &raceState{cells: map[*Value]*shadow{}} }

func (r *raceState) cell(w *Worker, p *Value) *shadow {
	s, ok := r.cells[p]
	if !ok {
		s = &shadow{w: access{g: -1}}
		r.cells[p] = s
		w.undoFn(func() { delete(r.cells, p) })
	}
	return s
}

func (r *raceState) mod(w *Worker, s *shadow) {
	old := *s
	w.undoFn(func() { *s = old })
}

// Accesses made by the models and the harness scaffolding are not of
// interest; everything else is.
func (r *raceState) read(w *Worker, g *G, p *Value) {
	if r == nil || w.initPhase || g.top != nil && g.top.fn.quiet {
		return
	}
	s := r.cell(w, p)
	if s.w.g >= 0 && s.w.g != g.id && s.w.c > g.vc.get(s.w.g) {
		r.report(w, g, "read", s.w.at.String())
		return
	}
	c := g.vc.get(g.id)
	if s.w.g == g.id && s.w.c == c {
		// Whatever conflicts with this read conflicts with the write.
		return
	}
	for i := range s.reads {
		if s.reads[i].g == g.id && s.reads[i].c == c {
			return
		}
	}
	r.mod(w, s)
	n := make([]access, 0, len(s.reads)+1)
	for _, x := range s.reads {
		if x.g != g.id {
			n = append(n, x)
		}
	}
	s.reads = append(n, access{g.id, c, w.at()})
}

func (r *raceState) write(w *Worker, g *G, p *Value) {
	if r == nil || w.initPhase || g.top != nil && g.top.fn.quiet {
		return
	}
	s := r.cell(w, p)
	if s.w.g >= 0 && s.w.g != g.id && s.w.c > g.vc.get(s.w.g) {
		r.report(w, g, "write", s.w.at.String())
		return
	}
	c := g.vc.get(g.id)
	if s.w.g == g.id && s.w.c == c && len(s.reads) == 0 {
		return
	}
	for _, x := range s.reads {
		if x.g != g.id && x.c > g.vc.get(x.g) {
			r.report(w, g, "write", x.at.String()+" (read)")
			return
		}
	}
	r.mod(w, s)
	s.w = access{g.id, c, w.at()}
	s.reads = nil
}

func (r *raceState) report(w *Worker, g *G, what, other string) {
	w.violation("race", fmt.Sprintf("data race: %s at %s with unsynchronised access at %s", what, w.pos(), other))
	panic(pathEnd{"violation"})
}

func (r *raceState) fork(w *Worker, g, n *G) {
	if r == nil {
		return
	}
	if g != nil {
		n.vc = g.vc.join(nil).inc(n.id)
		g.vc = g.vc.inc(g.id)
	} else {
		n.vc = VC(nil).inc(n.id)
	}
}

func (r *raceState) exit(w *Worker, g *G) {}

// release returns g's clock and advances it.
func (r *raceState) release(w *Worker, g *G) VC {
	if r == nil {
		return nil
	}
	v := g.vc
	g.vc = g.vc.inc(g.id)
	return v
}

func (r *raceState) releaseInto(w *Worker, g *G, into VC) VC {
	if r == nil {
		return into
	}
	v := into.join(g.vc)
	g.vc = g.vc.inc(g.id)
	return v
}

func (r *raceState) acquire(w *Worker, g *G, from VC) {
	if r == nil || from == nil {
		return
	}
	g.vc = g.vc.join(from)
}

// handoff is a rendezvous: both sides learn each other's clock.
func (r *raceState) handoff(w *Worker, a, b *G) {
	if r == nil {
		return
	}
	j := a.vc.join(b.vc)
	a.vc = j.inc(a.id)
	b.vc = j.inc(b.id)
}

// handoff1 orders a before b.
func (r *raceState) handoff1(w *Worker, a, b *G) {
	if r == nil {
		return
	}
	b.vc = b.vc.join(a.vc)
	a.vc = a.vc.inc(a.id)
}

func (r *raceState) atomic(w *Worker, g *G, p *Value) {
	if r == nil || w.initPhase || g.top != nil && g.top.fn.quiet {
		return
	}
	s := r.cell(w, p)
	r.mod(w, s)
	g.vc = g.vc.join(s.atomic)
	s.atomic = g.vc
	g.vc = g.vc.inc(g.id)
}

func (r *raceState) pathEnd(w *Worker) {}
