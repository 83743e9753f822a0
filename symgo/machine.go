package main

import (
	"fmt"
	"sync/atomic"
	"time"
)

// M is one worker: an interpreter with symbolic values, a trail for backtracking and an SMT solver.
type M struct {
	p  *Prog
	ts *Terms
	sv *Solver
	ex *Explorer

	nextObj  int32
	rtErr    *RType
	plainErr *RType
	raceOn   bool
	lockvc   map[*Obj][]int32
	nextG    int

	// scheduling
	gs  []*G
	cur *G

	// path state
	dom    []Bits
	ent    []int32
	cons   []*Term
	model  []uint64
	pc     []*Term
	decs   []int32 // every decision of this path
	prefix []int32 // forced decisions (work donated by another worker)
	steps  int64
	ndSeq  int
	nds    []ndRec
	notes  []string
	covers map[string]bool // of the whole run
	infl   []string        // covers of the current path

	trail  []trailEnt
	dtrail []dEnt
	cps    []*cp
	depth  int32

	instrDecs []int32
	instrPos  int

	implied []*Term // branch outcomes forced by the path condition since the last fork
	known   []string
	shows   []showRec
	asserts int

	opts      RunOpts
	truncated bool
	noModel   bool
	curFn     *Func
	fnSteps   map[*Func]int64
	forceEnd  string
}

type RunOpts struct {
	schedule              bool // scheduling choices are symbolic
	mapOrder              bool // map iteration order is symbolic
	race                  bool
	maxSteps              int64
	maxDepth              int
	preempts, maxPreempts int
	raceWhere             bool
}

type ndRec struct {
	label  string
	term   *Term // symbolic value, or
	val    uint64
	choice bool
}

type trailEnt struct {
	obj *Obj
	idx int
	old Value
	fn  func()
}

type dEnt struct {
	v   int32
	old Bits
}

type gSnap struct {
	g      *G
	frames []*Frame
	st     gState
}

type cp struct {
	trailLen, dtrailLen, consLen, pcLen, decLen, ndLen, noteLen, inflLen int
	gs                                                                   []gSnap
	cur                                                                  *G
	steps                                                                int64
	ndSeq                                                                int
	instrDecs                                                            []int32
	alts                                                                 []int32
	cond                                                                 *Term // branch condition, nil for plain choices
	model                                                                []uint64
	altModel                                                             map[int32]uint64
	nextObj                                                              int32
	nextG                                                                int
	opts                                                                 RunOpts
}

// control-flow panics of the interpreter itself
type pathEnd struct {
	kind string // "done", "assume", "unsupported", "limit", ...
	msg  string
}

type goPanic struct{ v Value }

func (m *M) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg + m.where()})
}

func (m *M) where() string {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return ""
	}
	s := " at"
	for i := len(m.cur.frames) - 1; i >= 0 && i > len(m.cur.frames)-8; i-- {
		f := m.cur.frames[i]
		s += " " + f.fn.name
		if f.pc < len(f.fn.code) && f.fn.code[f.pc].pos.IsValid() {
			pos := m.p.prog.Fset.Position(f.fn.code[f.pc].pos)
			s += fmt.Sprintf(":%d", pos.Line)
		}
	}
	return s
}

// ---- trail ----

func (m *M) write(o *Obj, i int, v Value) {
	if o.epoch != m.depth {
		m.trail = append(m.trail, trailEnt{obj: o, idx: i, old: o.cells[i]})
	}
	o.cells[i] = v
}

func (m *M) undoLog(fn func()) { m.trail = append(m.trail, trailEnt{fn: fn}) }

func (m *M) newObj(n int, what string) *Obj {
	m.nextObj++
	return &Obj{cells: make([]Value, n), epoch: m.depth, id: m.nextObj, what: what}
}

func (m *M) rollback(c *cp) {
	for len(m.trail) > c.trailLen {
		e := m.trail[len(m.trail)-1]
		m.trail[len(m.trail)-1] = trailEnt{}
		m.trail = m.trail[:len(m.trail)-1]
		if e.obj != nil {
			e.obj.cells[e.idx] = e.old
		} else {
			e.fn()
		}
	}
	for len(m.dtrail) > c.dtrailLen {
		e := m.dtrail[len(m.dtrail)-1]
		m.dtrail = m.dtrail[:len(m.dtrail)-1]
		m.dom[e.v] = e.old
	}
	for len(m.cons) > c.consLen {
		t := m.cons[len(m.cons)-1]
		m.cons = m.cons[:len(m.cons)-1]
		for _, v := range t.vars {
			m.ent[v]--
		}
	}
	m.pc = m.pc[:c.pcLen]
	m.decs = m.decs[:c.decLen]
	m.nds = m.nds[:c.ndLen]
	m.notes = m.notes[:c.noteLen]
	m.infl = m.infl[:c.inflLen]
	m.steps = c.steps
	m.ndSeq = c.ndSeq
	m.opts = c.opts
	m.nextObj = c.nextObj
	m.nextG = c.nextG
	m.raceOn = c.opts.race
	m.gs = m.gs[:0:0]
	for _, s := range c.gs {
		s.g.frames = append([]*Frame(nil), s.frames...)
		s.g.gState = s.st
		m.gs = append(m.gs, s.g)
	}
	m.cur = c.cur
}

// pushCP records the state before the current instruction.
func (m *M) pushCP(alts []int32, cond *Term) *cp {
	c := &cp{
		trailLen: len(m.trail), dtrailLen: len(m.dtrail), consLen: len(m.cons), pcLen: len(m.pc), decLen: len(m.decs),
		ndLen: len(m.nds), noteLen: len(m.notes), inflLen: len(m.infl),
		cur: m.cur, steps: m.steps, ndSeq: m.ndSeq, nextObj: m.nextObj, nextG: m.nextG, opts: m.opts,
		instrDecs: append([]int32(nil), m.instrDecs...), alts: alts, cond: cond,
		model: append([]uint64(nil), m.model...),
	}
	c.gs = make([]gSnap, len(m.gs))
	for i, g := range m.gs {
		fr := append([]*Frame(nil), g.frames...)
		if g == m.cur && len(fr) > 0 {
			top := fr[len(fr)-1]
			fr[len(fr)-1] = top.clone(top.epoch)
			top.epoch = m.depth + 1
		}
		c.gs[i] = gSnap{g, fr, g.gState}
	}
	m.cps = append(m.cps, c)
	m.depth = int32(len(m.cps))
	return c
}

// ---- constraints ----

type tri uint8

const (
	no tri = iota
	yes
	maybe
)

// quick decides from the domains alone whether t can be true / can be false.
func (m *M) quick(t *Term) (ct, cf tri) {
	switch t.op {
	case OConst:
		if t.k != 0 {
			return yes, no
		}
		return no, yes
	case OInSet:
		d := m.dom[t.v1]
		in, out := !d.and(*t.set).empty(), !d.andNot(*t.set).empty()
		p := yes
		if m.ent[t.v1] != 0 {
			p = maybe
		}
		switch {
		case !in:
			return no, yes
		case !out:
			return yes, no
		}
		return p, p
	case OBNot:
		ct, cf = m.quick(t.a)
		return cf, ct
	case OBAnd, OBOr:
		at, af := m.quick(t.a)
		bt, bf := m.quick(t.b)
		if t.op == OBOr {
			at, af, bt, bf = af, at, bf, bt
		}
		// as a conjunction
		var ct, cf tri
		switch {
		case at == no || bt == no:
			ct = no
		case at == yes && bt == yes && (disjoint(t.a.vars, t.b.vars) || af == no || bf == no):
			ct = yes
		default:
			ct = maybe
		}
		switch {
		case af == yes || bf == yes:
			cf = yes
		case af == no && bf == no:
			cf = no
		default:
			cf = maybe
		}
		if t.op == OBOr {
			ct, cf = cf, ct
		}
		return ct, cf
	}
	return maybe, maybe
}

func disjoint(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			return false
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return true
}

// setModel changes the model so that t gets value val; quick must have answered yes for it.
func (m *M) setModel(t *Term, val bool) {
	if (m.ts.eval(t, m.model) != 0) == val {
		return
	}
	switch t.op {
	case OInSet:
		s := *t.set
		d := m.dom[t.v1]
		if val {
			d = d.and(s)
		} else {
			d = d.andNot(s)
		}
		m.model[t.v1] = d.min()
	case OBNot:
		m.setModel(t.a, !val)
	case OBAnd, OBOr:
		if (t.op == OBAnd) == val {
			m.setModel(t.a, val)
			m.setModel(t.b, val)
			return
		}
		at, af := m.quick(t.a)
		ok := af
		if val {
			ok = at
		}
		if ok == yes {
			m.setModel(t.a, val)
		} else {
			m.setModel(t.b, val)
		}
	}
}

// slice collects every constraint connected to t (independence slicing).
func (m *M) slice(t *Term) []*Term {
	vars := t.vars
	used := make([]bool, len(m.cons))
	for changed := true; changed; {
		changed = false
		for i, c := range m.cons {
			if !used[i] && !disjoint(vars, c.vars) {
				used[i] = true
				vars = mergeVars(vars, c.vars)
				changed = true
			}
		}
	}
	var out []*Term
	for i, c := range m.cons {
		if used[i] {
			out = append(out, c)
		}
	}
	for _, v := range vars {
		if w := m.ts.vars[v].w; w <= 8 {
			if x := m.ts.InSet(v, m.dom[v]); x.op != OConst {
				out = append(out, x)
			}
		}
	}
	return out
}

func (m *M) solve(t *Term) (int, map[int32]uint64) {
	cs := append(m.slice(t), t)
	return m.sv.check(cs, true)
}

// add asserts c on the current path; the model must satisfy it (unless noModel).
func (m *M) add(c *Term) {
	m.pc = append(m.pc, c)
	m.addIn(c)
}

func (m *M) addIn(c *Term) {
	switch c.op {
	case OConst:
		return
	case OInSet:
		d := m.dom[c.v1]
		nd := d.and(*c.set)
		if nd != d {
			m.dtrail = append(m.dtrail, dEnt{c.v1, d})
			m.dom[c.v1] = nd
		}
		return
	case OBAnd:
		m.addIn(c.a)
		m.addIn(c.b)
		return
	case OBOr:
		if ct, _ := m.quick(c.a); ct == no {
			m.addIn(c.b)
			return
		}
		if ct, _ := m.quick(c.b); ct == no {
			m.addIn(c.a)
			return
		}
	case OBNot:
		if c.a.op == OBAnd {
			m.addIn(m.ts.Or(m.ts.Not(c.a.a), m.ts.Not(c.a.b)))
			return
		}
		if c.a.op == OBOr {
			m.addIn(m.ts.Not(c.a.a))
			m.addIn(m.ts.Not(c.a.b))
			return
		}
	}
	m.cons = append(m.cons, c)
	for _, v := range c.vars {
		m.ent[v]++
	}
}

// newVar registers a variable on this path.
func (m *M) newVar(key string, w uint8) *Term {
	t := m.ts.Var(key, w)
	id := int(t.k)
	for len(m.dom) <= id {
		m.dom = append(m.dom, Bits{})
		m.ent = append(m.ent, 0)
		m.model = append(m.model, 0)
	}
	if w <= 8 {
		m.dtrail = append(m.dtrail, dEnt{int32(id), m.dom[id]})
		m.dom[id] = fullByW[w]
	}
	return t
}

// refreshModel recomputes a model of the path condition (after replaying a donated prefix).
func (m *M) refreshModel() bool {
	for _, v := range m.ts.vars {
		if int(v.id) < len(m.dom) && v.w <= 8 && !m.dom[v.id].empty() {
			m.model[v.id] = m.dom[v.id].min()
		}
	}
	for _, c := range m.cons {
		if m.ts.eval(c, m.model) == 0 {
			cs := append([]*Term(nil), m.cons...)
			var vars []int32
			for _, c := range cs {
				vars = mergeVars(vars, c.vars)
			}
			for _, v := range vars {
				if m.ts.vars[v].w <= 8 {
					if x := m.ts.InSet(v, m.dom[v]); x.op != OConst {
						cs = append(cs, x)
					}
				}
			}
			r, mod := m.sv.check(cs, true)
			if r != resSat {
				return false
			}
			for v, x := range mod {
				m.model[v] = x
			}
			return true
		}
	}
	return true
}

// ---- decisions ----

// branch decides a symbolic condition, forking if both outcomes are feasible.
func (m *M) branch(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	if m.instrPos < len(m.instrDecs) {
		d := m.instrDecs[m.instrPos]
		m.instrPos++
		return d != 0
	}
	if len(m.decs) < len(m.prefix) {
		d := m.prefix[len(m.decs)]
		m.record(d)
		if d != 0 {
			m.add(c)
		} else {
			m.add(m.ts.Not(c))
		}
		if len(m.decs) == len(m.prefix) {
			if !m.refreshModel() {
				panic(pathEnd{"unsat", "donated prefix"})
			}
		}
		return d != 0
	}
	ct, cf := m.quick(c)
	var res bool
	switch {
	case ct == no && cf == no:
		panic(pathEnd{"unsat", ""})
	case cf == no:
		m.record(1)
		m.implied = append(m.implied, c)
		return true
	case ct == no:
		m.record(0)
		m.implied = append(m.implied, m.ts.Not(c))
		return false
	}
	cur := m.ts.eval(c, m.model) != 0
	other := cf
	oc := m.ts.Not(c)
	if !cur {
		other = ct
		oc = c
	}
	var altModel map[int32]uint64
	if other == maybe {
		r, mod := m.solve(oc)
		switch r {
		case resSat:
			other = yes
			altModel = mod
		case resUnsat:
			other = no
		default:
			other = yes
			m.ex.note("solver answered unknown on a branch; explored as feasible")
			m.ex.incomplete("solver unknown")
		}
	}
	res = cur
	if other == no {
		m.record(int32(b2u(res)))
		return res // implied by the path condition, as the solver has just said
	}
	if m.ex.certify {
		m.certifyImplied()
	}
	cp := m.pushCP([]int32{int32(b2u(!res))}, c)
	cp.altModel = altModel
	m.ex.forks.Add(1)
	m.maybeDonate()
	m.record(int32(b2u(res)))
	if res {
		m.add(c)
	} else {
		m.add(m.ts.Not(c))
	}
	return res
}

func (m *M) record(d int32) {
	m.decs = append(m.decs, d)
	m.instrDecs = append(m.instrDecs, d)
	m.instrPos = len(m.instrDecs)
}

// choose picks one of n alternatives, exploring all of them.
func (m *M) choose(n int) int {
	if n <= 0 {
		panic(pathEnd{"assume", "empty choice"})
	}
	if m.instrPos < len(m.instrDecs) {
		d := m.instrDecs[m.instrPos]
		m.instrPos++
		return int(d)
	}
	if len(m.decs) < len(m.prefix) {
		d := m.prefix[len(m.decs)]
		m.record(d)
		if len(m.decs) == len(m.prefix) && !m.refreshModel() {
			panic(pathEnd{"unsat", "donated prefix"})
		}
		return int(d)
	}
	if n == 1 {
		m.record(0)
		return 0
	}
	alts := make([]int32, 0, n-1)
	for i := n - 1; i >= 1; i-- {
		alts = append(alts, int32(i))
	}
	m.pushCP(alts, nil)
	m.ex.forks.Add(1)
	m.maybeDonate()
	m.record(0)
	return 0
}

// concretize enumerates the feasible values of a term.
func (m *M) concretize(t *Term) uint64 {
	for t.op != OConst {
		// The candidate must be the same when the instruction is re-executed: derive it from recorded decisions only.
		v := m.candidate(t)
		if m.branch(m.ts.Eq(t, m.ts.Const(t.w, v))) {
			return v
		}
	}
	return t.k
}

// candidate picks a feasible value of t and records it as a decision so replays agree.
func (m *M) candidate(t *Term) uint64 {
	if m.instrPos < len(m.instrDecs) {
		d := m.instrDecs[m.instrPos]
		m.instrPos++
		return uint64(int64(d)) & mask(t.w)
	}
	if len(m.decs) < len(m.prefix) {
		d := m.prefix[len(m.decs)]
		m.record(d)
		if len(m.decs) == len(m.prefix) && !m.refreshModel() {
			panic(pathEnd{"unsat", "donated prefix"})
		}
		return uint64(int64(d)) & mask(t.w)
	}
	v := m.ts.eval(t, m.model)
	s := sx(v, t.w)
	if s != int64(int32(s)) {
		m.unsupported("concretizing a wide value")
	}
	m.record(int32(s))
	return v
}

// backtrack resumes the most recent choice point; false when exploration of this subtree is over.
func (m *M) backtrack() bool {
	for len(m.cps) > 1 {
		c := m.cps[len(m.cps)-1]
		if len(c.alts) == 0 {
			m.rollbackPop(c)
			continue
		}
		m.rollback(c)
		d := c.alts[len(c.alts)-1]
		c.alts = c.alts[:len(c.alts)-1]
		last := len(c.alts) == 0
		if last {
			m.cps = m.cps[:len(m.cps)-1]
			m.depth = int32(len(m.cps))
		}
		copy(m.model, c.model)
		m.instrDecs = append(m.instrDecs[:0], c.instrDecs...)
		m.instrPos = 0
		m.decs = append(m.decs, d)
		m.instrDecs = append(m.instrDecs, d)
		if c.cond != nil {
			t := c.cond
			if d == 0 {
				t = m.ts.Not(t)
			}
			if c.altModel != nil {
				for v, x := range c.altModel {
					m.model[v] = x
				}
			} else {
				m.setModel(t, true)
			}
			m.add(t)
		}
		return true
	}
	return false
}

func (m *M) rollbackPop(c *cp) {
	m.cps = m.cps[:len(m.cps)-1]
	m.depth = int32(len(m.cps))
}

// maybeDonate hands the shallowest open alternative to an idle worker.
func (m *M) maybeDonate() {
	if atomic.LoadInt32(&m.ex.hungry) <= 0 {
		return
	}
	for _, c := range m.cps {
		if len(c.alts) == 0 {
			continue
		}
		if c == m.cps[len(m.cps)-1] && len(m.decs) < 3 && len(m.cps) > 1 {
			continue
		}
		d := c.alts[0]
		p := append(append([]int32(nil), m.decs[:min(c.decLen, len(m.decs))]...), d)
		if c.decLen > len(m.decs) {
			return
		}
		if m.ex.donate(p) {
			c.alts = c.alts[1:]
		}
		return
	}
}

var startTime = time.Now()
