package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines, channels, scheduling.

func (w *Worker) spawn(g *G, fn *Fn, env, args []Value) *G {
	w.nextG++
	n := &G{id: w.nextG, name: fn.name}
	n.top = w.callFrame(fn, env, args, nil, -1)
	oldN := w.nextG - 1
	old := w.gs
	w.gs = append(append(make([]*G, 0, len(old)+1), old...), n)
	w.undoFn(func() { w.nextG = oldN })
	if w.race != nil {
		w.race.fork(w, g, n)
	}
	return n
}

func (w *Worker) isReady(g *G) bool {
	switch g.status {
	case gRunnable:
		return true
	case gBlocked:
		return g.ready != nil && g.ready()
	}
	return false
}

// schedPoint is called before a visible operation of the current goroutine;
// it may transfer control to another goroutine.
func (w *Worker) schedPoint() bool {
	g := w.cur
	if g.skip {
		g.skip = false
		return false
	}
	if w.X.opt.preempt >= 0 && w.npreempt >= w.X.opt.preempt {
		return false
	}
	if w.atomicDepth > 0 {
		return false
	}
	var others []*G
	for _, o := range w.gs {
		if o != g && !o.lazy && !o.held && w.isReady(o) {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return false
	}
	n := len(others)
	if w.X.opt.hold {
		n *= 2
	}
	k := w.choose(1 + n)
	if k == 0 {
		return false
	}
	if k > len(others) {
		// The goroutine is held up until no other can run.
		k -= len(others)
		g.held = true
		w.event("hold g%d", g.id)
	}
	w.npreempt++
	w.nsched++
	g.skip = true
	o := others[k-1]
	w.event("preempt g%d at %s -> g%d", g.id, w.shortPos(), o.id)
	w.switchTo(o)
	w.switched = true
	return true
}

func (w *Worker) switchTo(o *G) {
	if o.status == gBlocked {
		o.status = gRunnable
		o.ready = nil
	}
	o.held = false
	w.cur = o
}

// pick selects the next goroutine when the current one cannot continue.
func (w *Worker) pick() bool {
	w.iTrail = len(w.trail)
	w.iLog = len(w.log)
	w.iDecs = w.iDecs[:0]
	var rs []*G
	live := w.gs[:0:0]
	for _, g := range w.gs {
		if g.status == gDone {
			if w.race != nil {
				w.gone = w.gone.join(g.vc)
			}
			continue
		}
		live = append(live, g)
		if w.isReady(g) {
			rs = append(rs, g)
		}
	}
	w.gs = live
	if len(rs) == 0 {
		return false
	}
	if len(rs) > 1 {
		// Goroutines that are held up run when no other can, and those that
		// only wait for quiescence run last.
		k := rs[:0:0]
		for _, g := range rs {
			if !g.lazy && !g.held {
				k = append(k, g)
			}
		}
		if len(k) == 0 {
			for _, g := range rs {
				if !g.lazy {
					k = append(k, g)
				}
			}
		}
		if len(k) > 0 {
			rs = k
		}
	}
	i := 0
	for k, g := range rs {
		if g.id > w.lastG {
			i = k
			break
		}
	}
	if w.X.opt.explore && !w.initPhase && w.atomicDepth == 0 && (w.X.opt.delay < 0 || w.ndelay < w.X.opt.delay) {
		// The first choice is the next goroutine in turn; others are delays.
		k := w.choose(len(rs))
		if k > 0 {
			w.ndelay++
		}
		i = (i + k) % len(rs)
		if len(rs) > 1 {
			w.nsched++
			w.event("run g%d", rs[i].id)
		}
	}
	w.switchTo(rs[i])
	return true
}

func (w *Worker) event(f string, a ...any) {
	if w.X.opt.explore && !w.initPhase {
		w.events = append(w.events, fmt.Sprintf(f, a...))
	}
}

func (w *Worker) shortPos() string {
	if w.cur == nil || w.cur.top == nil {
		return "?"
	}
	fr := w.cur.top
	// nearest frame in the program under test
	s := fr.fn.name
	if p := w.instrPos(fr); p.IsValid() {
		s += fmt.Sprintf(":%d", P.prog.Fset.Position(p).Line)
	}
	return s
}

func (w *Worker) block(g *G, why string, ready func() bool) ctl {
	g.status = gBlocked
	g.why = why
	g.ready = ready
	g.blockAt = w.shortPos()
	return cBlock
}

// --- channels ---

func (w *Worker) modChan(c *Chan) {
	if w.noTrail {
		return
	}
	old := *c
	w.undoFn(func() { *c = old })
}

func (x *waiter) live() bool { return x.g.status == gBlocked && x.g.tick == x.tick }

func firstLive(q []*waiter) (*waiter, []*waiter) {
	for i, x := range q {
		if x.live() {
			return x, q[i+1:]
		}
	}
	return nil, nil
}

func hasLive(q []*waiter) bool {
	for _, x := range q {
		if x.live() {
			return true
		}
	}
	return false
}

func (w *Worker) wake(x *waiter, val Value, ok bool) {
	g := x.g
	g.status = gRunnable
	g.tick++
	g.phase = 1
	g.wakeVal = val
	g.wakeOk = ok
	g.wakeIdx = x.idx
}

// trySend attempts a send without blocking; it reports whether it completed.
func (w *Worker) trySend(g *G, c *Chan, v Value) bool {
	if c.closed {
		panic(goPanic{w.rtPlain("send on closed channel")})
	}
	if x, rest := firstLive(c.recvq); x != nil {
		w.modChan(c)
		c.recvq = rest
		w.race.handoff(w, g, x.g)
		w.wake(x, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		w.modChan(c)
		c.buf = append(append(make([]Value, 0, len(c.buf)+1), c.buf...), v)
		if w.race != nil {
			c.bufVC = append(append(make([]VC, 0, len(c.bufVC)+1), c.bufVC...), w.race.release(w, g))
		}
		return true
	}
	return false
}

// tryRecv attempts a receive without blocking.
func (w *Worker) tryRecv(g *G, c *Chan) (v Value, ok, done bool) {
	if len(c.buf) > 0 {
		w.modChan(c)
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w.race != nil {
			w.race.acquire(w, g, c.bufVC[0])
			c.bufVC = c.bufVC[1:]
			c.vc = w.race.releaseInto(w, g, c.vc)
		}
		if x, rest := firstLive(c.sendq); x != nil {
			c.sendq = rest
			c.buf = append(append(make([]Value, 0, len(c.buf)+1), c.buf...), x.val)
			if w.race != nil {
				c.bufVC = append(append(make([]VC, 0, len(c.bufVC)+1), c.bufVC...), w.race.release(w, x.g))
			}
			w.wake(x, nil, true)
		}
		return v, true, true
	}
	if x, rest := firstLive(c.sendq); x != nil {
		w.modChan(c)
		c.sendq = rest
		v = x.val
		w.race.handoff(w, g, x.g)
		w.wake(x, nil, true)
		return v, true, true
	}
	if c.closed {
		if w.race != nil {
			w.race.acquire(w, g, c.vc)
		}
		return nil, false, true
	}
	return nil, false, false
}

func (w *Worker) rtPlain(msg string) Value { return Iface{t: P.rtErr, v: msg} }

func (w *Worker) chanSend(g *G, fr *Frame, ni *Instr) ctl {
	c := w.get(fr, &ni.a).(*Chan)
	if g.phase == 1 {
		g.phase = 0
		if !g.wakeOk {
			panic(goPanic{w.rtPlain("send on closed channel")})
		}
		return cNext
	}
	if c == nil {
		return w.block(g, "send on nil channel", nil)
	}
	v := copyVal(w.get(fr, &ni.b))
	if w.trySend(g, c, v) {
		return cNext
	}
	w.modChan(c)
	c.sendq = append(append(make([]*waiter, 0, len(c.sendq)+1), c.sendq...), &waiter{g: g, val: v, idx: -1, tick: g.tick})
	return w.block(g, fmt.Sprintf("send on channel %d", c.id), nil)
}

func (w *Worker) chanRecv(g *G, fr *Frame, ni *Instr, commaOk bool) ctl {
	c := w.get(fr, &ni.a).(*Chan)
	et := func() types.Type { return ni.t2.Underlying().(*types.Chan).Elem() }
	fin := func(v Value, ok bool) ctl {
		if v == nil {
			v = zero(et())
		}
		if commaOk {
			fr.env[ni.dst] = Tuple{v, ok}
		} else {
			fr.env[ni.dst] = v
		}
		return cNext
	}
	if g.phase == 1 {
		g.phase = 0
		v, ok := g.wakeVal, g.wakeOk
		g.wakeVal = nil
		return fin(v, ok)
	}
	if c == nil {
		return w.block(g, "receive from nil channel", nil)
	}
	if v, ok, done := w.tryRecv(g, c); done {
		return fin(v, ok)
	}
	w.modChan(c)
	c.recvq = append(append(make([]*waiter, 0, len(c.recvq)+1), c.recvq...), &waiter{g: g, idx: -1, tick: g.tick})
	return w.block(g, fmt.Sprintf("receive from channel %d", c.id), nil)
}

func (w *Worker) chanClose(g *G, c *Chan) {
	if c == nil {
		panic(goPanic{w.rtPlain("close of nil channel")})
	}
	if c.closed {
		panic(goPanic{w.rtPlain("close of closed channel")})
	}
	w.modChan(c)
	c.closed = true
	if w.race != nil {
		c.vc = w.race.releaseInto(w, g, c.vc)
	}
	for _, x := range c.recvq {
		if x.live() {
			if w.race != nil {
				w.race.acquire(w, x.g, c.vc)
			}
			w.wake(x, nil, false)
		}
	}
	for _, x := range c.sendq {
		if x.live() {
			w.wake(x, nil, false)
		}
	}
	c.recvq, c.sendq = nil, nil
}

func (w *Worker) doSelect(g *G, fr *Frame, ni *Instr, in *ssa.Select) ctl {
	n := len(in.States)
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	fin := func(idx int, v Value, ok bool) ctl {
		t := make(Tuple, 2+nrecv)
		t[0], t[1] = int64(idx), ok
		k := 2
		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if i == idx && v != nil {
				t[k] = v
			} else {
				t[k] = zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			}
			k++
		}
		fr.env[ni.dst] = t
		return cNext
	}
	if g.phase == 1 {
		g.phase = 0
		v, ok, idx := g.wakeVal, g.wakeOk, g.wakeIdx
		g.wakeVal = nil
		if in.States[idx].Dir == types.SendOnly {
			if !ok {
				panic(goPanic{w.rtPlain("send on closed channel")})
			}
			return fin(idx, nil, false)
		}
		return fin(idx, v, ok)
	}
	chans := make([]*Chan, n)
	var rdy []int
	for i, s := range in.States {
		c := w.get(fr, &ni.args[2*i]).(*Chan)
		chans[i] = c
		if c == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if c.closed || len(c.buf) < c.cap || hasLive(c.recvq) {
				rdy = append(rdy, i)
			}
		} else if len(c.buf) > 0 || c.closed || hasLive(c.sendq) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if w.X.opt.explore && !w.initPhase && len(rdy) > 1 {
			k = w.choose(len(rdy))
		}
		i := rdy[k]
		if in.States[i].Dir == types.SendOnly {
			w.trySend(g, chans[i], copyVal(w.get(fr, &ni.args[2*i+1])))
			return fin(i, nil, false)
		}
		v, ok, _ := w.tryRecv(g, chans[i])
		return fin(i, v, ok)
	}
	if !in.Blocking {
		return fin(-1, nil, false)
	}
	for i, s := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		w.modChan(c)
		x := &waiter{g: g, idx: i, tick: g.tick}
		if s.Dir == types.SendOnly {
			x.val = copyVal(w.get(fr, &ni.args[2*i+1]))
			c.sendq = append(append(make([]*waiter, 0, len(c.sendq)+1), c.sendq...), x)
		} else {
			c.recvq = append(append(make([]*waiter, 0, len(c.recvq)+1), c.recvq...), x)
		}
	}
	return w.block(g, "select", nil)
}

// --- synchronisation objects (keyed by address) ---

type syncObj struct {
	locked  bool
	owner   *G
	readers int
	wwait   int // writers waiting
	count   int64
	notif   []*waiter
	vc      VC
	rvc     VC // readers' releases
	done    bool
	running bool
	m       map[any]Value
	val     Value
}

func (w *Worker) syncOf(p *Value) *syncObj {
	if o, ok := w.sync[p]; ok {
		return o
	}
	o := &syncObj{}
	w.sync[p] = o
	w.undoFn(func() { delete(w.sync, p) })
	return o
}

func (w *Worker) modSync(o *syncObj) {
	if w.noTrail {
		return
	}
	old := *o
	w.undoFn(func() { *o = old })
}
