package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type showRec struct {
	name string
	s    *Str
}

// Violation is a path on which a harness's claim fails, with a concrete witness.
type Violation struct {
	Harness string      `json:"harness"`
	Kind    string      `json:"kind"`
	Msg     string      `json:"msg"`
	Values  []ndOut     `json:"values"`
	Shows   [][2]string `json:"shows,omitempty"`
	Known   []string    `json:"known,omitempty"`
	Tier    int         `json:"tier"`
	Replay  string      `json:"replay,omitempty"`
	Native  string      `json:"native,omitempty"`
	OK      bool        `json:"reproduced"`
}

type ndOut struct {
	L string `json:"l"`
	V uint64 `json:"v"`
}

// Explorer coordinates the workers exploring one harness.
type Explorer struct {
	tier      int
	harness   string
	prog      *ssa.Program
	entry     *ssa.Function
	models    *ssa.Package
	initPkgs  []*ssa.Package
	embeds    map[string]string
	runInit   map[*ssa.Package]bool
	nwork     int
	certify   bool
	solverCmd []string
	maxViol   int
	maxSteps  int64
	trace     bool

	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]int32
	active   int
	over     bool
	hungry   int32
	stop     atomic.Bool
	forks    atomic.Int64
	deadline time.Time

	Paths                                        map[string]int
	Steps                                        int64
	MaxPath                                      int64
	Asserts                                      int64
	Incompl                                      map[string]int
	Covers                                       map[string]int
	Viol                                         []*Violation
	violN                                        map[string]int
	Queries, Sat, Unsat, Unknown, CacheHit, Cert int
	CertFail                                     []string
	SolverTime                                   time.Duration
	Funcs                                        map[string]int64
	Wall                                         time.Duration
	NDMax                                        int
	Wit                                          []*Violation // sample of completed paths
	nDone                                        int
}

func (ex *Explorer) note(string) {}

func (ex *Explorer) incomplete(why string) {
	ex.mu.Lock()
	ex.Incompl[why]++
	ex.mu.Unlock()
}

func (ex *Explorer) donate(p []int32) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(ex.queue) >= int(ex.hungry) {
		return false
	}
	ex.queue = append(ex.queue, p)
	ex.cond.Signal()
	return true
}

func (ex *Explorer) take() ([]int32, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for len(ex.queue) == 0 {
		if ex.active == 0 || ex.over {
			ex.over = true
			ex.cond.Broadcast()
			return nil, false
		}
		atomic.AddInt32(&ex.hungry, 1)
		ex.cond.Wait()
		atomic.AddInt32(&ex.hungry, -1)
	}
	p := ex.queue[0]
	ex.queue = ex.queue[1:]
	ex.active++
	return p, true
}

func (ex *Explorer) release() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.over = true
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) Run() {
	t0 := time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.Paths, ex.Incompl, ex.Covers, ex.violN, ex.Funcs = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]int64{}
	ex.queue = [][]int32{{}}
	ex.active = ex.nwork // counts initialisation
	var wg sync.WaitGroup
	// the first job must be taken before other workers conclude that nothing is left
	for i := 0; i < ex.nwork; i++ {
		wg.Add(1)
		m := newMachine(ex)
		go func() {
			defer wg.Done()
			defer m.finish()
			err := m.initAll()
			ex.release0()
			if err != nil {
				ex.incomplete("initialisation: " + err.Error())
				ex.stop.Store(true)
				return
			}
			for {
				p, ok := ex.take()
				if !ok {
					return
				}
				m.explore(p)
				ex.release()
			}
		}()
	}
	wg.Wait()
	ex.Wall = time.Since(t0)
}

func (ex *Explorer) release0() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.over = true
	}
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func newMachine(ex *Explorer) *M {
	ts := newTerms()
	m := &M{p: newProg(ex.prog), ts: ts, ex: ex, sv: newSolver(ts, ex.solverCmd...), lockvc: map[*Obj][]int32{}}
	m.p.runInit = ex.runInit
	if ex.models != nil {
		for name, mod := range redirects {
			if f := ex.models.Func(mod); f != nil {
				m.p.models[name] = f
			}
		}
	}
	for _, p := range ex.prog.AllPackages() {
		m.p.byPath[p.Pkg.Path()] = p
	}
	if rt := m.p.byPath["runtime"]; rt != nil {
		m.rtErr = m.p.rtype(rt.Type("errorString").Type())
		m.plainErr = m.p.rtype(rt.Type("plainError").Type())
	}
	return m
}

func (m *M) defaults() RunOpts {
	ms := m.ex.maxSteps
	if ms == 0 {
		ms = 3_000_000
	}
	return RunOpts{maxSteps: ms, maxDepth: 3000}
}

func (m *M) initAll() (err error) {
	m.opts = RunOpts{maxSteps: 1 << 40, maxDepth: 1000}
	for _, p := range m.ex.initPkgs {
		f := p.Func("init")
		end := m.runFunc(f)
		if end.kind != "done" {
			return fmt.Errorf("%s: %s %s", p.Pkg.Path(), end.kind, end.msg)
		}
	}
	m.gs = nil
	m.cur = nil
	m.steps = 0
	m.pushCP(nil, nil)
	return nil
}

func (m *M) runFunc(f *ssa.Function) pathEnd {
	defer func() { m.trail = m.trail[:0] }()
	g := &G{}
	m.gs = []*G{g}
	m.cur = g
	m.nextG = 0
	g.frames = []*Frame{m.newFrame(m.fn(f), -1)}
	return m.runPath()
}

func (m *M) runPath() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(pathEnd); ok {
				end = e
				return
			}
			end = pathEnd{"unsupported", fmt.Sprintf("engine panic: %v%s", r, m.where())}
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, end.msg)
				debug.PrintStack()
			}
		}
	}()
	m.run()
	return
}

// explore runs every path that extends a decision prefix.
func (m *M) explore(prefix []int32) {
	base := m.cps[0]
	m.cps = m.cps[:1]
	m.depth = 1
	m.rollback(base)
	m.prefix = prefix
	m.decs = m.decs[:0]
	m.instrDecs = m.instrDecs[:0]
	m.instrPos = 0
	m.implied = m.implied[:0]
	m.ndSeq, m.steps = 0, 0
	m.opts = m.defaults()
	m.raceOn = false
	m.nextG = 0
	m.truncated = false
	g := &G{}
	m.gs = []*G{g}
	m.cur = g
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(pathEnd); ok {
					m.ex.incomplete(e.kind + ": " + e.msg)
					return
				}
				panic(r)
			}
		}()
		g.frames = []*Frame{m.newFrame(m.fn(m.ex.entry), -1)}
	}()
	if len(g.frames) == 0 {
		return
	}
	for {
		end := m.runPath()
		m.pathDone(end)
		if m.ex.stop.Load() {
			return
		}
		if !m.ex.deadline.IsZero() && time.Now().After(m.ex.deadline) {
			m.ex.incomplete("time budget of the harness used up")
			m.ex.stop.Store(true)
			return
		}
		m.implied = m.implied[:0]
		if !m.backtrack() {
			return
		}
	}
}

func (m *M) allCons() []*Term {
	cs := append([]*Term(nil), m.cons...)
	seen := map[int32]bool{}
	for _, n := range m.nds {
		if n.term == nil {
			continue
		}
		for _, v := range n.term.vars {
			if !seen[v] && m.ts.vars[v].w <= 8 {
				seen[v] = true
				if x := m.ts.InSet(v, m.dom[v]); x.op != OConst {
					cs = append(cs, x)
				}
			}
		}
	}
	return cs
}

func (m *M) pathDone(end pathEnd) {
	ex := m.ex
	viol := false
	switch end.kind {
	case "assert", "panic", "deadlock", "race", "steps", "limit":
		viol = true
	}
	if ex.certify && end.kind != "unsat" {
		m.certifyImplied()
	}
	var feasible = true
	if (viol || ex.certify && end.kind == "done") && len(m.nds) > 0 {
		cs := m.allCons()
		r, mod := m.sv.check(cs, true)
		m.sv.Cert++
		switch r {
		case resUnsat:
			feasible = false
			if len(m.sv.CertFail) < 5 {
				m.sv.CertFail = append(m.sv.CertFail, "leaf path condition unsat: "+end.kind)
			}
		case resUnknown:
			ex.incomplete("solver unknown at the end of a path")
		case resSat:
			for v, x := range mod {
				m.model[v] = x
			}
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Paths[end.kind]++
	ex.Steps += m.steps
	ex.Asserts += int64(m.asserts)
	m.asserts = 0
	if m.steps > ex.MaxPath {
		ex.MaxPath = m.steps
	}
	if len(m.nds) > ex.NDMax {
		ex.NDMax = len(m.nds)
	}
	if end.kind == "done" || viol {
		for _, c := range m.infl {
			ex.Covers[c]++
		}
	}
	switch end.kind {
	case "unsupported", "limit":
		ex.Incompl[end.kind+": "+end.msg]++
	}
	if ex.trace {
		fmt.Fprintf(os.Stderr, "path %s %s steps=%d decs=%d\n", end.kind, end.msg, m.steps, len(m.decs))
		for _, s := range m.shows {
			fmt.Fprintf(os.Stderr, "   %s = %q\n", s.name, m.show(s.s))
		}
	}
	if end.kind == "done" && feasible {
		// keep a spread of completed paths: the first few, then ever sparser
		ex.nDone++
		if n := ex.nDone; len(ex.Wit) < 200 && (n <= 20 || n&(n-1) == 0 || n%997 == 0 || n < 2000 && n%37 == 0) {
			ex.Wit = append(ex.Wit, m.witness(end))
		}
	}
	if viol && feasible {
		v := m.witness(end)
		key := end.kind + "|" + stripNum(end.msg) + "|" + strings.Join(v.Known, ",")
		ex.violN[key]++
		if ex.violN[key] <= 3 {
			ex.Viol = append(ex.Viol, v)
		}
		unknown := 0
		for k, n := range ex.violN {
			if strings.HasSuffix(k, "|") {
				unknown += n
			}
		}
		if unknown >= ex.maxViol {
			ex.stop.Store(true)
		}
	}
}

func (m *M) witness(end pathEnd) *Violation {
	v := &Violation{Harness: m.ex.harness, Kind: end.kind, Msg: end.msg, Tier: m.ex.tier, Known: append([]string(nil), m.known...)}
	for _, n := range m.nds {
		o := ndOut{L: n.label, V: n.val}
		if n.term != nil {
			o.V = m.ts.eval(n.term, m.model)
		}
		v.Values = append(v.Values, o)
	}
	for _, s := range m.shows {
		v.Shows = append(v.Shows, [2]string{s.name, m.show(s.s)})
	}
	return v
}

func stripNum(s string) string {
	if i := strings.Index(s, " at "); i > 0 && strings.Contains(s[i:], modPath) {
		// keep the innermost repository frame only
		s = s[:i]
	}
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return '0'
		}
		return r
	}, s)
}

// certifyImplied has the solver confirm every branch side pruned since the last fork.
func (m *M) certifyImplied() {
	if len(m.implied) == 0 {
		return
	}
	q := m.ts.False
	for _, t := range m.implied {
		q = m.ts.Or(q, m.ts.Not(t))
	}
	m.implied = m.implied[:0]
	if q == m.ts.False {
		return
	}
	if q.op == OInSet && m.ent[q.v1] == 0 {
		// the claim "domain disjoint from set" about one variable: send it as is
	}
	cs := append(m.slice(q), q)
	r, _ := m.sv.check(cs, true)
	m.sv.Cert++
	if r == resSat {
		m.sv.CertFail = append(m.sv.CertFail, "pruned branch is feasible")
	} else if r == resUnknown {
		m.ex.incomplete("solver unknown on a pruned branch")
	}
}

func (m *M) finish() {
	m.sv.close()
	ex := m.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	s := m.sv
	ex.Queries += s.Queries
	ex.Sat += s.Sat
	ex.Unsat += s.Unsat
	ex.Unknown += s.Unknown
	ex.CacheHit += s.CacheHit
	ex.SolverTime += s.Time
	ex.Cert += s.Cert
	ex.CertFail = append(ex.CertFail, s.CertFail...)
	for _, f := range m.p.funcs {
		if f.steps > 0 {
			ex.Funcs[f.name] += f.steps
		}
	}
	for _, f := range m.p.funcs {
		f.steps = 0
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
