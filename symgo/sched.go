package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// yield makes a scheduling choice before a visible operation; true if another goroutine was chosen.
func (m *M) yield() bool {
	if !m.opts.schedule || m.opts.preempts >= m.opts.maxPreempts {
		return false
	}
	g := m.cur
	if g.yielded {
		return false // reset when the instruction is done: until then it may be executed again
	}
	var o []*G
	for _, h := range m.gs {
		if h != g && m.ready(h) {
			o = append(o, h)
		}
	}
	if len(o) == 0 {
		return false
	}
	c := m.choose(1 + len(o))
	if c == 0 {
		return false
	}
	g.yielded = true
	m.opts.preempts++
	m.switchTo(o[c-1])
	return true
}

func (m *M) switchTo(g *G) {
	m.cur = g
	g.status = gRun
	g.ready = nil
	if f := g.top(); f.epoch != m.depth {
		g.frames[len(g.frames)-1] = f.clone(m.depth)
	}
}

func (m *M) findWait(self *G, c *Chan, send bool) (*G, int) {
	for _, h := range m.gs {
		if h == self || h.status != gBlocked || h.completed {
			continue
		}
		for i, w := range h.waits {
			if w.ch == c && w.send == send {
				return h, i
			}
		}
	}
	return nil, 0
}

func (m *M) ready(g *G) bool {
	switch g.status {
	case gRun:
		return true
	case gDone:
		return false
	}
	if g.completed {
		return true
	}
	if g.ready != nil {
		return g.ready(m)
	}
	for _, w := range g.waits {
		if w.ch == nil {
			continue
		}
		if w.ch.closed {
			return true
		}
		if w.send && w.ch.n() < w.ch.cap || !w.send && w.ch.n() > 0 {
			return true
		}
		if w.ch.cap > 0 {
			continue
		}
		if h, _ := m.findWait(g, w.ch, !w.send); h != nil {
			return true
		}
	}
	return false
}

func (m *M) block(why string, ws ...waitOn) action {
	g := m.cur
	g.status = gBlocked
	g.waits = ws
	g.waitWhy = why
	g.completed = false
	return blocked
}

// reschedule picks the next goroutine when the current one cannot run.
func (m *M) reschedule() {
	var rs []*G
	for _, h := range m.gs {
		if h != m.cur && m.ready(h) {
			rs = append(rs, h)
		}
	}
	if m.cur.status != gDone && m.ready(m.cur) {
		rs = append(rs, m.cur)
	}
	if len(rs) == 0 {
		msg := "all goroutines are blocked:"
		for _, g := range m.gs {
			msg += fmt.Sprintf(" [goroutine %d: %s in %s]", g.id, g.waitWhy, g.top().fn.name)
		}
		panic(pathEnd{"deadlock", msg})
	}
	i := 0
	if m.opts.schedule && len(rs) > 1 {
		i = m.choose(len(rs))
	}
	m.switchTo(rs[i])
}

func (m *M) goroutineDone(g *G) {
	g.status = gDone
	if g.id == 0 {
		panic(pathEnd{"done", ""})
	}
	gs := make([]*G, 0, len(m.gs))
	for _, h := range m.gs {
		if h != g {
			gs = append(gs, h)
		}
	}
	m.gs = gs
}

func (m *M) push(c *Chan, v Value) {
	g := m.cur
	var vc []int32
	if m.raceOn {
		if j := len(c.msgs) - c.cap; j >= 0 && j < len(c.recvvc) {
			m.join(g, c.recvvc[j])
		}
		m.tick(g)
		vc = vcCopy(g.vc)
		m.tick(g)
	}
	n := len(c.msgs)
	c.msgs = append(c.msgs, chanMsg{v, vc})
	m.undoLog(func() { c.msgs = c.msgs[:n] })
}

func (m *M) chanSend(cv, v Value) action {
	g := m.cur
	if g.completed {
		g.completed = false
		g.waits = nil
		return next
	}
	if cv.r == nil {
		return m.block("send on nil channel")
	}
	c := cv.r.(*Chan)
	if c.closed {
		return m.throw(Value{r: &Iface{m.plainErr, strVal("send on closed channel")}})
	}
	if c.cap == 0 {
		if h, i := m.findWait(g, c, false); h != nil {
			m.handoff(g, h, v, i)
			return next
		}
	} else if c.n() < c.cap {
		m.push(c, v)
		return next
	}
	return m.block("chan send", waitOn{c, true, v})
}

// handoff completes the receive of h with v sent by g.
func (m *M) handoff(g, h *G, v Value, i int) {
	h.completed, h.recvVal, h.recvOK, h.selIdx = true, v, true, i
	m.sync(g, h)
}

func (m *M) sync(a, b *G) {
	if !m.raceOn {
		return
	}
	m.tick(a)
	m.tick(b)
	va := vcCopy(a.vc)
	m.join(a, b.vc)
	m.join(b, va)
	m.tick(a)
	m.tick(b)
}

// tryRecv performs a receive if one is possible now.
func (m *M) tryRecv(c *Chan) (v Value, ok, done bool) {
	g := m.cur
	if c.n() > 0 {
		msg := c.msgs[c.head]
		c.head++
		nr := len(c.recvvc)
		if m.raceOn {
			m.join(g, msg.vc)
			m.tick(g)
			c.recvvc = append(c.recvvc, vcCopy(g.vc))
			m.tick(g)
		}
		m.undoLog(func() { c.head--; c.recvvc = c.recvvc[:nr] })
		return msg.v, true, true
	}
	if c.cap == 0 {
		if h, i := m.findWait(g, c, true); h != nil {
			v := h.waits[i].v
			h.completed, h.selIdx = true, i
			m.sync(h, g)
			return v, true, true
		}
	}
	if c.closed {
		if m.raceOn {
			m.join(g, c.clvc)
		}
		return Value{}, false, true
	}
	return Value{}, false, false
}

func (m *M) chanRecv(f *Frame, cv Value, dst int32, commaOk bool) action {
	g := m.cur
	var v Value
	var ok bool
	switch {
	case g.completed:
		v, ok = g.recvVal, g.recvOK
		g.completed = false
		g.waits = nil
		g.recvVal = Value{}
	case cv.r == nil:
		return m.block("receive from nil channel")
	default:
		c := cv.r.(*Chan)
		var done bool
		v, ok, done = m.tryRecv(c)
		if !done {
			return m.block("chan receive", waitOn{ch: c})
		}
	}
	if commaOk {
		f.regs[dst] = Value{r: &Agg{[]Value{v, boolVal(ok)}}}
	} else {
		f.regs[dst] = v
	}
	return next
}

func (m *M) chanClose(cv Value) action {
	if cv.r == nil {
		return m.throwRT("close of nil channel")
	}
	c := cv.r.(*Chan)
	if c.closed {
		return m.throw(Value{r: &Iface{m.plainErr, strVal("close of closed channel")}})
	}
	if m.raceOn {
		m.tick(m.cur)
		old := c.clvc
		c.clvc = vcCopy(m.cur.vc)
		m.tick(m.cur)
		m.undoLog(func() { c.clvc = old })
	}
	c.closed = true
	m.undoLog(func() { c.closed = false })
	return next
}

func (x *fnc) selectInstr(in *ssa.Select, dst int32) execFn {
	type st struct {
		send   bool
		ch, v  int32
		recvIx int
	}
	var sts []st
	nrecv := 0
	for _, s := range in.States {
		e := st{send: s.Dir == types.SendOnly, ch: x.operand(s.Chan)}
		if e.send {
			e.v = x.operand(s.Send)
		} else {
			e.recvIx = nrecv
			nrecv++
		}
		sts = append(sts, e)
	}
	blocking := in.Blocking
	return func(m *M, f *Frame) action {
		if m.yield() {
			return jumped
		}
		g := m.cur
		fin := func(i int, v Value, ok bool) action {
			r := make([]Value, 2+nrecv)
			r[0] = Value{n: uint64(int64(i))}
			r[1] = boolVal(ok)
			if i >= 0 && !sts[i].send {
				r[2+sts[i].recvIx] = v
			}
			f.regs[dst] = Value{r: &Agg{r}}
			return next
		}
		if g.completed {
			i := g.selIdx
			v, ok := g.recvVal, g.recvOK
			g.completed, g.waits, g.recvVal = false, nil, Value{}
			return fin(i, v, ok && !sts[i].send)
		}
		var rdy []int
		var ws []waitOn
		for i, s := range sts {
			w := waitOn{send: s.send}
			if c := f.get(s.ch); c.r != nil {
				w.ch = c.r.(*Chan)
			}
			if s.send {
				w.v = f.get(s.v)
			}
			ws = append(ws, w)
			if w.ch == nil {
				continue
			}
			ok := w.ch.closed || s.send && w.ch.n() < w.ch.cap || !s.send && w.ch.n() > 0
			if !ok {
				h, _ := m.findWait(g, w.ch, !s.send)
				ok = h != nil
			}
			if ok {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) == 0 {
			if !blocking {
				return fin(-1, Value{}, false)
			}
			return m.block("select", ws...)
		}
		i := rdy[0]
		if m.opts.schedule && len(rdy) > 1 {
			i = rdy[m.choose(len(rdy))]
		}
		if sts[i].send {
			if a := m.chanSend(f.get(sts[i].ch), f.get(sts[i].v)); a != next {
				return a
			}
			return fin(i, Value{}, false)
		}
		v, ok, _ := m.tryRecv(ws[i].ch)
		return fin(i, v, ok)
	}
}

// run interprets until the path ends (by a pathEnd panic).
func (m *M) run() {
	for {
		g := m.cur
		if g.status == gDone {
			m.reschedule()
			m.instrDecs = m.instrDecs[:0]
			m.instrPos = 0
			continue
		}
		f := g.frames[len(g.frames)-1]
		if f.epoch != m.depth {
			f = f.clone(m.depth)
			g.frames[len(g.frames)-1] = f
		}
		code := f.fn.code
		fnc := f.fn
	inner:
		for {
			in := &code[f.pc]
			m.steps++
			fnc.steps++
			act := in.ex(m, f)
			if act != blocked && len(m.instrDecs) > 0 {
				m.instrDecs = m.instrDecs[:0]
				m.instrPos = 0
			}
			switch act {
			case next:
				f.pc++
				m.cur.yielded = false
			case jumped:
				break inner
			case blocked:
				self := m.cur
				m.reschedule()
				self.yielded = false
				if len(m.instrDecs) > 0 {
					m.instrDecs = m.instrDecs[:0]
					m.instrPos = 0
				}
				break inner
			}
		}
		if m.steps > m.opts.maxSteps {
			panic(pathEnd{"steps", fmt.Sprintf("more than %d steps", m.opts.maxSteps) + m.where()})
		}
	}
}

// ---- vector clocks ----

type access struct {
	g   int
	clk int32
	at  string
}

type shadow struct {
	w map[int]access
	r map[int][]access
}

func vcCopy(v []int32) []int32 { return append([]int32(nil), v...) }

func (m *M) tick(g *G) {
	v := vcCopy(g.vc)
	for len(v) <= g.id {
		v = append(v, 0)
	}
	v[g.id]++
	g.vc = v
}

func (m *M) join(g *G, o []int32) {
	v := vcCopy(g.vc)
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	g.vc = v
}

func (m *M) ordered(a access) bool {
	g := m.cur
	return a.g == g.id || a.g < len(g.vc) && g.vc[a.g] >= a.clk
}

func (m *M) race(o *Obj, i int, write bool) {
	g := m.cur
	if len(m.gs) <= 1 && o.sh == nil && m.nextG == 0 {
		return
	}
	var clk int32
	if g.id < len(g.vc) {
		clk = g.vc[g.id]
	}
	if o.sh == nil {
		o.sh = &shadow{w: map[int]access{}, r: map[int][]access{}}
	}
	sh := o.sh
	if w, ok := sh.w[i]; ok && !m.ordered(w) {
		m.reportRace(o, w, write, true)
	}
	at := ""
	if m.opts.raceWhere {
		at = m.where()
	}
	if write {
		for _, r := range sh.r[i] {
			if !m.ordered(r) {
				m.reportRace(o, r, write, false)
			}
		}
		ow, had := sh.w[i]
		or := sh.r[i]
		sh.w[i] = access{g.id, clk, at}
		delete(sh.r, i)
		m.undoLog(func() {
			if had {
				sh.w[i] = ow
			} else {
				delete(sh.w, i)
			}
			if or != nil {
				sh.r[i] = or
			}
		})
		return
	}
	or := sh.r[i]
	for _, r := range or {
		if r.g == g.id && r.clk == clk {
			return
		}
	}
	nr := make([]access, 0, len(or)+1)
	for _, r := range or {
		if r.g != g.id {
			nr = append(nr, r)
		}
	}
	sh.r[i] = append(nr, access{g.id, clk, at})
	m.undoLog(func() {
		if or == nil {
			delete(sh.r, i)
		} else {
			sh.r[i] = or
		}
	})
}

func (m *M) raceMap(mp *Map, write bool) {
	if mp.sh == nil {
		mp.sh = &Obj{cells: make([]Value, 1), what: "map"}
	}
	m.race(mp.sh, 0, write)
}

func (m *M) reportRace(o *Obj, a access, write, prevWrite bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	panic(pathEnd{"race", fmt.Sprintf("data race on %s: %s by goroutine %d%s and %s by goroutine %d%s", o.what, k(prevWrite), a.g, a.at, k(write), m.cur.id, m.where())})
}

// acquire/release order goroutines through a synchronisation object.
func (m *M) acquire(o *Obj) {
	if m.raceOn {
		if v, ok := m.lockvc[o]; ok {
			m.join(m.cur, v)
		}
	}
}

func (m *M) release(o *Obj) {
	if !m.raceOn {
		return
	}
	m.tick(m.cur)
	old, had := m.lockvc[o]
	nv := vcCopy(m.cur.vc)
	for i, x := range old {
		if i < len(nv) {
			nv[i] = max(nv[i], x)
		} else {
			nv = append(nv, x)
		}
	}
	m.lockvc[o] = nv
	m.tick(m.cur)
	m.undoLog(func() {
		if had {
			m.lockvc[o] = old
		} else {
			delete(m.lockvc, o)
		}
	})
}
