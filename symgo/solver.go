package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process (SMT-LIB 2 over a pipe).
type Solver struct {
	ts      *Terms
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inw     io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool // term ids already given a define-fun
	declare map[int32]bool
	cache   map[string]cacheEnt

	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	CacheHit int
	Time     time.Duration
	Cert     int
	CertFail []string
}

type cacheEnt struct {
	res   int
	model map[int32]uint64
}

const (
	resUnsat   = 0
	resSat     = 1
	resUnknown = 2
)

func newSolver(ts *Terms, cmdline ...string) *Solver {
	return &Solver{ts: ts, cmdline: cmdline, cache: map[string]cacheEnt{}}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.inw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int]bool{}
	s.declare = map[int32]bool{}
	fmt.Fprintln(s.in, "(set-option :global-declarations true)")
	if strings.Contains(s.cmdline[0], "z3") {
		fmt.Fprintln(s.in, "(set-option :timeout 20000)")
	}
	fmt.Fprintln(s.in, "(set-logic QF_BV)")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) varName(v int32) string { return "v" + strconv.Itoa(int(v)) }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return smtConst(t.w, t.k)
	case OVar:
		return s.varName(int32(t.k))
	}
	return "t" + strconv.Itoa(t.id)
}

// define emits declarations and a define-fun for every node of t not sent yet.
func (s *Solver) define(t *Term) {
	for _, v := range t.vars {
		if !s.declare[v] {
			s.declare[v] = true
			fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", s.varName(v), s.ts.vars[v].w)
		}
	}
	s.define1(t)
}

func (s *Solver) define1(t *Term) {
	if t.op == OConst || t.op == OVar || s.defined[t.id] {
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define1(x)
		}
	}
	s.defined[t.id] = true
	sort := "Bool"
	if t.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	var body string
	switch t.op {
	case OInSet:
		body = smtSet(s.varName(t.v1), s.ts.vars[t.v1].w, *t.set)
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.a))
	case OTable:
		body = smtTable(s.ts.tables[t.k], t.w, s.ref(t.a), t.a.w)
	case OIte:
		body = fmt.Sprintf("(ite %s %s %s)", s.ref(t.a), s.ref(t.b), s.ref(t.c))
	default:
		if t.b != nil {
			body = fmt.Sprintf("(%s %s %s)", smtName[t.op], s.ref(t.a), s.ref(t.b))
		} else {
			body = fmt.Sprintf("(%s %s)", smtName[t.op], s.ref(t.a))
		}
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sort, body)
}

// check decides satisfiability of the conjunction of cs. On sat it returns values of all variables in cs.
func (s *Solver) check(cs []*Term, useCache bool) (int, map[int32]uint64) {
	var key string
	if useCache {
		var kb strings.Builder
		for _, c := range cs {
			kb.WriteString(strconv.Itoa(c.id))
			kb.WriteByte(',')
		}
		key = kb.String()
		if e, ok := s.cache[key]; ok {
			s.CacheHit++
			return e.res, e.model
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd == nil {
		s.start()
	}
	s.Queries++
	var vars []int32
	for _, c := range cs {
		s.define(c)
		vars = mergeVars(vars, c.vars)
	}
	fmt.Fprintln(s.in, "(push 1)")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(c))
	}
	fmt.Fprintln(s.in, "(check-sat)")
	s.in.Flush()
	line := s.readLine()
	res := resUnknown
	var model map[int32]uint64
	switch line {
	case "sat":
		res = resSat
		s.Sat++
		model = map[int32]uint64{}
		if len(vars) > 0 {
			fmt.Fprint(s.in, "(get-value (")
			for _, v := range vars {
				fmt.Fprint(s.in, s.varName(v), " ")
			}
			fmt.Fprintln(s.in, "))")
			s.in.Flush()
			s.readModel(model, len(vars))
		}
	case "unsat":
		res = resUnsat
		s.Unsat++
	default:
		s.Unknown++
	}
	fmt.Fprintln(s.in, "(pop 1)")
	if line == "DEAD" {
		s.close()
	}
	if useCache {
		if len(s.cache) > 200000 {
			s.cache = map[string]cacheEnt{}
		}
		s.cache[key] = cacheEnt{res, model}
	}
	return res, model
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "DEAD"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			// whatever comes next cannot be relied on
			fmt.Fprintln(os.Stderr, "solver:", l)
			return "DEAD"
		}
		return l
	}
}

func (s *Solver) readModel(m map[int32]uint64, n int) {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return
		}
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if depth <= 0 {
			break
		}
	}
	f := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String()))
	for i := 0; i < len(f); i++ {
		if strings.HasPrefix(f[i], "v") && i+1 < len(f) {
			id, err := strconv.Atoi(f[i][1:])
			if err != nil {
				continue
			}
			val := f[i+1]
			switch {
			case strings.HasPrefix(val, "#x"):
				x, _ := strconv.ParseUint(val[2:], 16, 64)
				m[int32(id)] = x
			case strings.HasPrefix(val, "#b"):
				x, _ := strconv.ParseUint(val[2:], 2, 64)
				m[int32(id)] = x
			case val == "(" && i+3 < len(f) && f[i+2] == "_":
				x, _ := strconv.ParseUint(strings.TrimPrefix(f[i+3], "bv"), 10, 64)
				m[int32(id)] = x
			}
		}
	}
}
