package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func newProg(prog *ssa.Program) *Prog {
	return &Prog{prog: prog, funcs: map[*ssa.Function]*Func{}, sizes: types.SizesFor("gc", "amd64"),
		globals: map[*ssa.Global]*Obj{}, models: map[string]*ssa.Function{}, runInit: map[*ssa.Package]bool{}, byPath: map[string]*ssa.Package{}}
}

func (m *M) fn(f *ssa.Function) *Func {
	if c, ok := m.p.funcs[f]; ok {
		return c
	}
	name := f.RelString(nil)
	if o := f.Origin(); o != nil {
		name = o.RelString(nil)
	}
	target := f
	if md, ok := m.p.models[name]; ok && md != f {
		target = md
		if c, ok := m.p.funcs[md]; ok {
			m.p.funcs[f] = c
			return c
		}
	}
	c := &Func{fn: target, name: target.RelString(nil), recover: -1, id: len(m.p.funcs)}
	m.p.funcs[f] = c
	m.p.funcs[target] = c
	c.nparams = len(target.Params)
	c.nresults = target.Signature.Results().Len()
	if f.Synthetic == "package initializer" && !m.p.runInit[f.Pkg] {
		c.nat = func(m *M, args []Value) Value { return Value{} }
		return c
	}
	if target == f {
		if n, ok := natives[name]; ok {
			c.nat = n
		} else if n, ok := nativesCtl[name]; ok {
			c.natCtl = n
		}
	}
	return c
}

type fnc struct {
	m    *M
	c    *Func
	reg  map[ssa.Value]int32
	cidx map[ssa.Value]int32
}

func (x *fnc) operand(v ssa.Value) int32 {
	if r, ok := x.reg[v]; ok {
		return r
	}
	if r, ok := x.cidx[v]; ok {
		return r
	}
	var val Value
	switch v := v.(type) {
	case *ssa.Const:
		val = x.m.constVal(v)
	case *ssa.Global:
		val = Value{r: x.m.global(v)}
	case *ssa.Function:
		val = Value{r: &Closure{fn: x.m.fn(v)}}
	case *ssa.Builtin:
		val = Value{r: &Closure{bi: v.Name()}}
	default:
		panic(fmt.Sprintf("operand %T %v", v, v))
	}
	x.c.consts = append(x.c.consts, val)
	r := int32(^(len(x.c.consts) - 1))
	x.cidx[v] = r
	return r
}

func (m *M) global(g *ssa.Global) *Obj {
	if o, ok := m.p.globals[g]; ok {
		return o
	}
	if a, ok := aliasGlobals[g.RelString(nil)]; ok {
		o := m.global(m.p.byPath[a[0]].Var(a[1]))
		m.p.globals[g] = o
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	m.nextObj++
	o := &Obj{cells: make([]Value, m.p.layout(t).n), id: m.nextObj, what: g.RelString(nil), epoch: 0}
	if !m.p.runInit[g.Pkg] && !okGlobals[g.RelString(nil)] {
		o.poison = "global " + g.RelString(nil) + " of a package whose initialiser is not executed"
	}
	if g.RelString(nil) == "os.Args" {
		o.cells[0] = Value{r: &Slice{obj: &Obj{cells: []Value{strVal("program")}, id: m.nextObj, what: "os.Args"}, len: 1, cap: 1, esz: 1}}
	}
	if c, ok := m.ex.embeds[g.RelString(nil)]; ok {
		switch k, _ := kindOf(t); {
		case k.isStr:
			o.cells[0] = strVal(c)
		default:
			o.poison = "embedded files in " + g.RelString(nil)
		}
	}
	m.p.globals[g] = o
	return o
}

func (m *M) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return Value{} // zero value or nil
	}
	k, ok := kindOf(t)
	if !ok {
		if tp, isTP := t.Underlying().(*types.Interface); isTP {
			_ = tp
		}
		panic(pathEnd{"unsupported", "constant of type " + t.String()})
	}
	switch {
	case k.isBool:
		return boolVal(constant.BoolVal(c.Value))
	case k.isStr:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return strVal(string(rune(i)))
		}
		return strVal(constant.StringVal(c.Value))
	case k.float:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if k.w == 32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	}
	v := constant.ToInt(c.Value)
	if i, ok := constant.Int64Val(v); ok {
		return Value{n: norm(uint64(i), k)}
	}
	u, _ := constant.Uint64Val(v)
	return Value{n: norm(u, k)}
}

// compile translates the body of a function.
func (m *M) compile(c *Func) {
	c.compiled = true
	f := c.fn
	if len(f.Blocks) == 0 {
		return
	}
	x := &fnc{m: m, c: c, reg: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	n := int32(0)
	def := func(v ssa.Value) {
		x.reg[v] = n
		n++
	}
	for _, p := range f.Params {
		def(p)
	}
	for _, p := range f.FreeVars {
		def(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				def(v)
			}
		}
	}
	blocks := f.Blocks
	start := make(map[*ssa.BasicBlock]int)
	// first pass: positions
	pos := 0
	for _, b := range blocks {
		start[b] = pos
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			pos++
		}
	}
	if f.Recover != nil {
		if _, ok := start[f.Recover]; !ok {
			b := f.Recover
			start[b] = pos
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, ok := x.reg[v]; !ok {
						def(v)
					}
				}
				switch in.(type) {
				case *ssa.Phi, *ssa.DebugRef:
					continue
				}
				pos++
			}
			blocks = append(append([]*ssa.BasicBlock(nil), blocks...), b)
		}
		c.recover = start[f.Recover]
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			ex := x.instr(in, start)
			c.code = append(c.code, Instr{ex: ex, pos: in.Pos(), ssa: in})
		}
	}
	c.nregs = int(n)
}

func (x *fnc) edge(from, to *ssa.BasicBlock) []phiMove {
	var pi int
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var mv []phiMove
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, phiMove{x.reg[p], x.operand(p.Edges[pi])})
	}
	return mv
}

func doEdge(f *Frame, mv []phiMove, pc int) {
	switch len(mv) {
	case 0:
	case 1:
		f.regs[mv[0].dst] = f.get(mv[0].src)
	default:
		var buf [16]Value
		tmp := buf[:0]
		for _, p := range mv {
			tmp = append(tmp, f.get(p.src))
		}
		for i, p := range mv {
			f.regs[p.dst] = tmp[i]
		}
	}
	f.pc = pc
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	panic("elemOf " + t.String())
}

type execFn = func(m *M, f *Frame) action

func (x *fnc) instr(in ssa.Instruction, start map[*ssa.BasicBlock]int) execFn {
	p := x.m.p
	var dst int32
	if v, ok := in.(ssa.Value); ok {
		dst = x.reg[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		n := p.layout(elemOf(in.Type())).n
		what := in.Comment
		return func(m *M, f *Frame) action {
			f.regs[dst] = Value{r: m.newObj(n, what)}
			return next
		}
	case *ssa.Phi:
		panic("phi")
	case *ssa.BinOp:
		return x.binop(in, dst)
	case *ssa.UnOp:
		return x.unop(in, dst)
	case *ssa.Call:
		return x.call(in.Common(), dst)
	case *ssa.Go:
		return x.goStmt(in)
	case *ssa.Defer:
		return x.deferStmt(in)
	case *ssa.RunDefers:
		return func(m *M, f *Frame) action {
			if f.defers == nil {
				return next
			}
			d := f.defers
			if c, ok := d.fn.r.(*Closure); ok && (c.bi != "" || c.fn.nat != nil || c.fn.natCtl != nil) {
				a := m.invokeClosure(m.cur, d.fn, d.args, -1, true, false)
				f.defers = d.next
				return a
			}
			f.defers = d.next
			return m.invokeClosure(m.cur, d.fn, d.args, -1, true, false)
		}
	case *ssa.Panic:
		a := x.operand(in.X)
		return func(m *M, f *Frame) action {
			v := f.get(a)
			if v.r == nil {
				return m.throwRT("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			return m.throw(v)
		}
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			return func(m *M, f *Frame) action { return m.ret(f, Value{}) }
		case 1:
			a := x.operand(in.Results[0])
			return func(m *M, f *Frame) action { return m.ret(f, f.get(a)) }
		}
		var as []int32
		for _, r := range in.Results {
			as = append(as, x.operand(r))
		}
		return func(m *M, f *Frame) action {
			t := &Agg{c: make([]Value, len(as))}
			for i, a := range as {
				t.c[i] = f.get(a)
			}
			return m.ret(f, Value{r: t})
		}
	case *ssa.Jump:
		to := in.Block().Succs[0]
		mv := x.edge(in.Block(), to)
		pc := start[to]
		return func(m *M, f *Frame) action {
			doEdge(f, mv, pc)
			return jumped
		}
	case *ssa.If:
		t0, t1 := in.Block().Succs[0], in.Block().Succs[1]
		mv0, mv1 := x.edgeIdx(in.Block(), 0), x.edgeIdx(in.Block(), 1)
		pc0, pc1 := start[t0], start[t1]
		a := x.operand(in.Cond)
		return func(m *M, f *Frame) action {
			c := f.get(a)
			var b bool
			if c.r == nil {
				b = c.n != 0
			} else {
				b = m.branch(c.r.(*Term))
			}
			if b {
				doEdge(f, mv0, pc0)
			} else {
				doEdge(f, mv1, pc1)
			}
			return jumped
		}
	case *ssa.ChangeType:
		return move(x.operand(in.X), dst)
	case *ssa.ChangeInterface:
		return move(x.operand(in.X), dst)
	case *ssa.Convert:
		return x.convert(in, dst)
	case *ssa.MakeInterface:
		a := x.operand(in.X)
		rt := p.rtype(in.X.Type())
		return func(m *M, f *Frame) action {
			f.regs[dst] = Value{r: &Iface{rt, f.get(a)}}
			return next
		}
	case *ssa.MakeClosure:
		fn := x.m.fn(in.Fn.(*ssa.Function))
		var as []int32
		for _, b := range in.Bindings {
			as = append(as, x.operand(b))
		}
		return func(m *M, f *Frame) action {
			c := &Closure{fn: fn, fv: make([]Value, len(as))}
			for i, a := range as {
				c.fv[i] = f.get(a)
			}
			f.regs[dst] = Value{r: c}
			return next
		}
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		return func(m *M, f *Frame) action {
			f.regs[dst] = Value{r: m.newMap(mt)}
			return next
		}
	case *ssa.MakeChan:
		a := x.operand(in.Size)
		return func(m *M, f *Frame) action {
			n := m.intVal(f.get(a))
			if n < 0 {
				return m.throwRT("makechan: size out of range")
			}
			m.nextObj++
			f.regs[dst] = Value{r: &Chan{cap: int(n), id: m.nextObj}}
			return next
		}
	case *ssa.MakeSlice:
		a, b := x.operand(in.Len), x.operand(in.Cap)
		esz := p.layout(elemOf(in.Type())).n
		return func(m *M, f *Frame) action {
			n, c := m.intVal(f.get(a)), m.intVal(f.get(b))
			if n < 0 || n > 1<<40 {
				return m.throwRT("makeslice: len out of range")
			}
			if c < n || c > 1<<40 {
				return m.throwRT("makeslice: cap out of range")
			}
			if c > 1<<26 {
				m.unsupported("huge slice")
			}
			f.regs[dst] = Value{r: &Slice{obj: m.newObj(int(c)*esz, "make"), len: int(n), cap: int(c), esz: esz}}
			return next
		}
	case *ssa.Extract:
		a, i := x.operand(in.Tuple), in.Index
		return func(m *M, f *Frame) action {
			f.regs[dst] = f.get(a).r.(*Agg).c[i]
			return next
		}
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		a, off := x.operand(in.X), p.fieldOff(st, in.Field)
		ft := st.Field(in.Field).Type()
		n, agg := p.layout(ft).n, isAgg(ft)
		return func(m *M, f *Frame) action {
			v := f.get(a)
			switch {
			case v.r == nil:
				f.regs[dst] = Value{}
			case agg:
				f.regs[dst] = Value{r: &Agg{v.r.(*Agg).c[off : off+n]}}
			default:
				f.regs[dst] = v.r.(*Agg).c[off]
			}
			return next
		}
	case *ssa.FieldAddr:
		st := elemOf(in.X.Type()).Underlying().(*types.Struct)
		a, off := x.operand(in.X), uint64(p.fieldOff(st, in.Field))
		return func(m *M, f *Frame) action {
			v := f.get(a)
			if v.r == nil {
				return m.throwNil()
			}
			v.n += off
			f.regs[dst] = v
			return next
		}
	case *ssa.IndexAddr:
		return x.indexAddr(in, dst)
	case *ssa.Index:
		return x.index(in, dst)
	case *ssa.Lookup:
		return x.lookup(in, dst)
	case *ssa.MapUpdate:
		a, b, c := x.operand(in.Map), x.operand(in.Key), x.operand(in.Value)
		return func(m *M, f *Frame) action {
			mv := f.get(a)
			if mv.r == nil {
				return m.throwPlain("assignment to entry in nil map")
			}
			mp := mv.r.(*Map)
			i := m.mapFind(mp, f.get(b))
			m.mapSet(mp, i, f.get(b), f.get(c))
			return next
		}
	case *ssa.Range:
		a := x.operand(in.X)
		return func(m *M, f *Frame) action {
			it := m.newObj(2, "range")
			it.ext = f.get(a).r
			if mp, ok := it.ext.(*Map); ok && mp != nil && m.raceOn {
				m.raceMap(mp, false)
			}
			f.regs[dst] = Value{r: it}
			return next
		}
	case *ssa.Next:
		return x.nextInstr(in, dst)
	case *ssa.Select:
		return x.selectInstr(in, dst)
	case *ssa.Send:
		a, b := x.operand(in.Chan), x.operand(in.X)
		return func(m *M, f *Frame) action {
			if m.yield() {
				return jumped
			}
			return m.chanSend(f.get(a), f.get(b))
		}
	case *ssa.Slice:
		return x.slice(in, dst)
	case *ssa.SliceToArrayPointer:
		a := x.operand(in.X)
		n := int(elemOf(in.Type()).Underlying().(*types.Array).Len())
		return func(m *M, f *Frame) action {
			v := f.get(a)
			if v.r == nil {
				if n == 0 {
					f.regs[dst] = Value{}
					return next
				}
				return m.throwRT("cannot convert slice to array pointer")
			}
			s := v.r.(*Slice)
			if s.len < n {
				return m.throwRT("cannot convert slice to array pointer")
			}
			f.regs[dst] = Value{r: s.obj, n: uint64(s.off)}
			return next
		}
	case *ssa.Store:
		a, b := x.operand(in.Addr), x.operand(in.Val)
		t := in.Val.Type()
		n := p.layout(t).n
		if !isAgg(t) {
			return func(m *M, f *Frame) action {
				pv := f.get(a)
				switch o := pv.r.(type) {
				case *Obj:
					if m.raceOn {
						m.race(o, int(pv.n), true)
					}
					m.write(o, int(pv.n), f.get(b))
				case nil:
					return m.throwNil()
				case *SymPtr:
					i := int(m.concretize(o.idx))
					m.write(o.obj, o.off+i, f.get(b))
				}
				return next
			}
		}
		return func(m *M, f *Frame) action {
			pv := f.get(a)
			if pv.r == nil {
				return m.throwNil()
			}
			o := pv.r.(*Obj)
			v := f.get(b)
			for i := 0; i < n; i++ {
				var c Value
				if v.r != nil {
					c = v.r.(*Agg).c[i]
				}
				if m.raceOn {
					m.race(o, int(pv.n)+i, true)
				}
				m.write(o, int(pv.n)+i, c)
			}
			return next
		}
	case *ssa.TypeAssert:
		return x.typeAssert(in, dst)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("instruction %T %s in %s", in, in, x.c.name)})
}

func move(a, dst int32) execFn {
	return func(m *M, f *Frame) action {
		f.regs[dst] = f.get(a)
		return next
	}
}

func (x *fnc) edgeIdx(from *ssa.BasicBlock, k int) []phiMove {
	to := from.Succs[k]
	pi, seen := -1, 0
	for i, p := range to.Preds {
		if p == from {
			if pi < 0 || (from.Succs[0] == from.Succs[1] && seen <= k) {
				pi = i
			}
			seen++
		}
	}
	var mv []phiMove
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, phiMove{x.reg[p], x.operand(p.Edges[pi])})
	}
	return mv
}

// intVal returns a concrete integer, forking over the feasible values of a symbolic one.
func (m *M) intVal(v Value) int64 {
	if v.r == nil {
		return int64(v.n)
	}
	t := v.r.(*Term)
	return sx(m.concretize(t), t.w)
}

func (m *M) load(v Value, n int, agg bool) (Value, bool) {
	switch o := v.r.(type) {
	case nil:
		return Value{}, false
	case *Obj:
		if o.poison != "" {
			m.unsupported(o.poison)
		}
		if !agg {
			if m.raceOn {
				m.race(o, int(v.n), false)
			}
			return o.cells[v.n], true
		}
		c := make([]Value, n)
		copy(c, o.cells[v.n:int(v.n)+n])
		if m.raceOn {
			for i := 0; i < n; i++ {
				m.race(o, int(v.n)+i, false)
			}
		}
		return Value{r: &Agg{c}}, true
	case *SymPtr:
		if o.k.isBool {
			return m.boolTerm(m.ts.Eq(m.ts.TableAt(o.tbl, 1, o.idx), m.ts.Const(1, 1))), true
		}
		return m.fromTerm(m.ts.TableAt(o.tbl, o.k.w, o.idx), o.k), true
	}
	panic(fmt.Sprintf("load %T", v.r))
}

func (x *fnc) unop(in *ssa.UnOp, dst int32) execFn {
	a := x.operand(in.X)
	t := in.X.Type()
	switch in.Op {
	case token.MUL:
		n := x.m.p.layout(in.Type()).n
		agg := isAgg(in.Type())
		return func(m *M, f *Frame) action {
			pv := f.get(a)
			if o, ok := pv.r.(*Obj); ok && !agg && o.poison == "" && !m.raceOn {
				f.regs[dst] = o.cells[pv.n]
				return next
			}
			v, ok := m.load(pv, n, agg)
			if !ok {
				return m.throwNil()
			}
			f.regs[dst] = v
			return next
		}
	case token.NOT:
		return func(m *M, f *Frame) action {
			v := f.get(a)
			if v.r == nil {
				f.regs[dst] = Value{n: 1 - v.n}
			} else {
				f.regs[dst] = m.boolTerm(m.ts.Not(v.r.(*Term)))
			}
			return next
		}
	case token.SUB:
		k, _ := kindOf(t)
		return func(m *M, f *Frame) action {
			v := f.get(a)
			switch {
			case k.float:
				f.regs[dst] = Value{n: math.Float64bits(-math.Float64frombits(v.n))}
			case v.r == nil:
				f.regs[dst] = Value{n: norm(-v.n, k)}
			default:
				f.regs[dst] = m.fromTerm(m.ts.un(ONeg, k.w, m.term(v, k)), k)
			}
			return next
		}
	case token.XOR:
		k, _ := kindOf(t)
		return func(m *M, f *Frame) action {
			v := f.get(a)
			if v.r == nil {
				f.regs[dst] = Value{n: norm(^v.n, k)}
			} else {
				f.regs[dst] = m.fromTerm(m.ts.un(ONot, k.w, m.term(v, k)), k)
			}
			return next
		}
	case token.ARROW:
		ok := in.CommaOk
		return func(m *M, f *Frame) action {
			if m.yield() {
				return jumped
			}
			return m.chanRecv(f, f.get(a), dst, ok)
		}
	}
	panic(pathEnd{"unsupported", "unop " + in.String()})
}

// concreteIdx checks 0 <= idx < n; it returns -1 with the panic raised otherwise.
func (m *M) idxOK(v Value, k kind, n int) bool {
	if v.r == nil {
		if k.signed {
			return int64(v.n) >= 0 && int64(v.n) < int64(n)
		}
		return v.n < uint64(n)
	}
	t := v.r.(*Term)
	var c *Term
	// as unsigned values of the index type, negatives are large
	if k.w < 64 && uint64(n) > mask(k.w) {
		if !k.signed {
			return true
		}
		c = m.ts.bin(OSle, 0, m.ts.Const(k.w, 0), t)
	} else {
		c = m.ts.bin(OUlt, 0, t, m.ts.Const(k.w, uint64(n)))
		if k.signed && k.w < 64 && uint64(n) > mask(k.w-1) {
			c = m.ts.bin(OSle, 0, m.ts.Const(k.w, 0), t)
		}
	}
	return m.branch(c)
}

func (m *M) throwIdx(v Value, n int) action {
	if v.r == nil {
		return m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", int64(v.n), n))
	}
	return m.throwRT(fmt.Sprintf("index out of range with length %d", n))
}

func (x *fnc) indexAddr(in *ssa.IndexAddr, dst int32) execFn {
	a, b := x.operand(in.X), x.operand(in.Index)
	k, _ := kindOf(in.Index.Type())
	et := elemOf(in.Type())
	ek, scalar := kindOf(et)
	scalar = scalar && !ek.isStr && !ek.float
	esz := x.m.p.layout(et).n
	alen := -1
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		alen = int(pt.Elem().Underlying().(*types.Array).Len())
	}
	return func(m *M, f *Frame) action {
		bv, iv := f.get(a), f.get(b)
		var o *Obj
		off, n := 0, 0
		if alen >= 0 {
			if bv.r == nil {
				return m.throwNil()
			}
			o, off, n = bv.r.(*Obj), int(bv.n), alen
		} else if bv.r != nil {
			s := bv.r.(*Slice)
			o, off, n = s.obj, s.off, s.len
		}
		if !m.idxOK(iv, k, n) {
			return m.throwIdx(iv, n)
		}
		if iv.r != nil {
			t := iv.r.(*Term)
			if scalar && n > 1 && n <= 4096 {
				ok := o.poison == ""
				for i := 0; i < n && ok; i++ {
					ok = o.cells[off+i].r == nil
				}
				if ok {
					vals := make([]uint64, n)
					for i := range vals {
						vals[i] = o.cells[off+i].n & mask(max(ek.w, 1))
					}
					f.regs[dst] = Value{r: &SymPtr{tbl: m.ts.Table(vals), idx: t, k: ek, obj: o, off: off, n: n}}
					return next
				}
			}
			iv = Value{n: m.concretize(t)}
		}
		f.regs[dst] = Value{r: o, n: uint64(off + int(iv.n)*esz)}
		return next
	}
}

func (x *fnc) index(in *ssa.Index, dst int32) execFn {
	a, b := x.operand(in.X), x.operand(in.Index)
	k, _ := kindOf(in.Index.Type())
	if _, ok := in.X.Type().Underlying().(*types.Array); ok {
		at := in.X.Type().Underlying().(*types.Array)
		esz, agg, n := x.m.p.layout(at.Elem()).n, isAgg(at.Elem()), int(at.Len())
		return func(m *M, f *Frame) action {
			v, iv := f.get(a), f.get(b)
			if !m.idxOK(iv, k, n) {
				return m.throwIdx(iv, n)
			}
			i := int(m.intVal(iv))
			switch {
			case v.r == nil:
				f.regs[dst] = Value{}
			case agg:
				f.regs[dst] = Value{r: &Agg{v.r.(*Agg).c[i*esz : (i+1)*esz]}}
			default:
				f.regs[dst] = v.r.(*Agg).c[i]
			}
			return next
		}
	}
	return x.strIndex(a, b, k, dst)
}

func (x *fnc) strIndex(a, b int32, k kind, dst int32) execFn {
	return func(m *M, f *Frame) action {
		s, iv := str(f.get(a)), f.get(b)
		n := s.len()
		if !m.idxOK(iv, k, n) {
			return m.throwIdx(iv, n)
		}
		if iv.r != nil {
			if s.b == nil && n <= 4096 {
				vals := make([]uint64, n)
				for i := range vals {
					vals[i] = uint64(s.s[i])
				}
				f.regs[dst] = m.fromTerm(m.ts.TableAt(m.ts.Table(vals), 8, iv.r.(*Term)), kind{w: 8})
				return next
			}
			iv = Value{n: m.concretize(iv.r.(*Term))}
		}
		if s.b != nil {
			f.regs[dst] = m.fromTerm(s.b[iv.n], kind{w: 8})
		} else {
			f.regs[dst] = Value{n: uint64(s.s[iv.n])}
		}
		return next
	}
}

func (x *fnc) lookup(in *ssa.Lookup, dst int32) execFn {
	a, b := x.operand(in.X), x.operand(in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		k, _ := kindOf(in.Index.Type())
		return x.strIndex(a, b, k, dst)
	}
	commaOk := in.CommaOk
	return func(m *M, f *Frame) action {
		mv := f.get(a)
		var v Value
		found := false
		if mv.r != nil {
			mp := mv.r.(*Map)
			if m.raceOn {
				m.raceMap(mp, false)
			}
			if i := m.mapFind(mp, f.get(b)); i >= 0 {
				v, found = mp.ents[i].v, true
			}
		}
		if commaOk {
			f.regs[dst] = Value{r: &Agg{[]Value{v, boolVal(found)}}}
		} else {
			f.regs[dst] = v
		}
		return next
	}
}

func (x *fnc) nextInstr(in *ssa.Next, dst int32) execFn {
	a := x.operand(in.Iter)
	if in.IsString {
		return func(m *M, f *Frame) action {
			it := f.get(a).r.(*Obj)
			s, _ := it.ext.(*Str)
			if s == nil {
				s = emptyStr
			}
			i := int(it.cells[0].n)
			if i >= s.len() {
				f.regs[dst] = Value{r: &Agg{[]Value{{}, {}, {}}}}
				return next
			}
			r, n := m.decodeRune(s, i)
			m.write(it, 0, Value{n: uint64(i + n)})
			f.regs[dst] = Value{r: &Agg{[]Value{{n: 1}, {n: uint64(i)}, r}}}
			return next
		}
	}
	return func(m *M, f *Frame) action {
		it := f.get(a).r.(*Obj)
		mp, _ := it.ext.(*Map)
		done := Value{r: &Agg{[]Value{{}, {}, {}}}}
		if mp == nil {
			f.regs[dst] = done
			return next
		}
		if m.opts.mapOrder && len(mp.ents) <= 60 {
			seen := it.cells[1].n
			var c []int
			for i := range mp.ents {
				if !mp.ents[i].dead && seen>>i&1 == 0 {
					c = append(c, i)
				}
			}
			if len(c) == 0 {
				f.regs[dst] = done
				return next
			}
			i := c[m.choose(len(c))]
			m.write(it, 1, Value{n: seen | 1<<i})
			f.regs[dst] = Value{r: &Agg{[]Value{{n: 1}, mp.ents[i].k, mp.ents[i].v}}}
			return next
		}
		i := int(it.cells[0].n)
		for i < len(mp.ents) && mp.ents[i].dead {
			i++
		}
		if i >= len(mp.ents) {
			f.regs[dst] = done
			return next
		}
		m.write(it, 0, Value{n: uint64(i + 1)})
		f.regs[dst] = Value{r: &Agg{[]Value{{n: 1}, mp.ents[i].k, mp.ents[i].v}}}
		return next
	}
}

func (x *fnc) slice(in *ssa.Slice, dst int32) execFn {
	a := x.operand(in.X)
	opt := func(v ssa.Value) int32 {
		if v == nil {
			return math.MaxInt32
		}
		return x.operand(v)
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	isStr := false
	alen := -1
	esz := 1
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic:
		isStr = true
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		alen = int(at.Len())
		esz = x.m.p.layout(at.Elem()).n
	case *types.Slice:
		esz = x.m.p.layout(t.Elem()).n
	}
	return func(m *M, f *Frame) action {
		v := f.get(a)
		get := func(i int32, def int) int {
			if i == math.MaxInt32 {
				return def
			}
			n := m.intVal(f.get(i))
			if n < 0 || n > 1<<40 {
				return -1
			}
			return int(n)
		}
		if isStr {
			s := str(v)
			n := s.len()
			h := get(hi, n)
			l := get(lo, 0)
			if h < 0 || h > n {
				return m.throwRT(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				return m.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			f.regs[dst] = Value{r: s.slice(l, h)}
			return next
		}
		var o *Obj
		off, n, c := 0, 0, 0
		if alen >= 0 {
			if v.r == nil {
				return m.throwNil()
			}
			o, off, n, c = v.r.(*Obj), int(v.n), alen, alen
		} else if v.r != nil {
			s := v.r.(*Slice)
			o, off, n, c = s.obj, s.off, s.len, s.cap
		}
		x := get(mx, c)
		h := get(hi, n)
		l := get(lo, 0)
		if x < 0 || x > c {
			return m.throwRT(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", x, c))
		}
		if h < 0 || h > x {
			return m.throwRT(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, x))
		}
		if l < 0 || l > h {
			return m.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if o == nil {
			f.regs[dst] = Value{}
			return next
		}
		f.regs[dst] = Value{r: &Slice{obj: o, off: off + l*esz, len: h - l, cap: x - l, esz: esz}}
		return next
	}
}

func (m *M) implements(rt *RType, it *types.Interface, t types.Type) bool {
	if r, ok := rt.impl[t]; ok {
		return r
	}
	r := types.Implements(rt.t, it)
	rt.impl[t] = r
	return r
}

// conversionText is the message of a failed type assertion.
func conversionText(v Value, from, to types.Type) string {
	name := func(t types.Type) string {
		if it, ok := t.(*types.Interface); ok && it.Empty() {
			return "interface {}"
		}
		return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
	}
	if v.r == nil {
		if _, ok := to.Underlying().(*types.Interface); ok {
			return "interface conversion: interface is nil, not " + name(to)
		}
		return "interface conversion: " + name(types.Unalias(from)) + " is nil, not " + name(to)
	}
	dyn := v.r.(*Iface).t.t
	if it, ok := to.Underlying().(*types.Interface); ok {
		meth, _ := types.MissingMethod(dyn, it, true)
		return "interface conversion: " + name(dyn) + " is not " + name(to) + ": missing method " + meth.Name()
	}
	return "interface conversion: " + name(types.Unalias(from)) + " is " + name(dyn) + ", not " + name(to)
}

func (x *fnc) typeAssert(in *ssa.TypeAssert, dst int32) execFn {
	a := x.operand(in.X)
	t := in.AssertedType
	commaOk := in.CommaOk
	xt := in.X.Type()
	if it, ok := t.Underlying().(*types.Interface); ok {
		return func(m *M, f *Frame) action {
			v := f.get(a)
			ok := v.r != nil && m.implements(v.r.(*Iface).t, it, t)
			switch {
			case commaOk && ok:
				f.regs[dst] = Value{r: &Agg{[]Value{v, {n: 1}}}}
			case commaOk:
				f.regs[dst] = Value{r: &Agg{[]Value{{}, {}}}}
			case ok:
				f.regs[dst] = v
			default:
				return m.throwPlain(conversionText(v, xt, t))
			}
			return next
		}
	}
	rt := x.m.p.rtype(t)
	return func(m *M, f *Frame) action {
		v := f.get(a)
		var i *Iface
		if v.r != nil {
			i = v.r.(*Iface)
		}
		ok := i != nil && i.t == rt
		switch {
		case commaOk && ok:
			f.regs[dst] = Value{r: &Agg{[]Value{i.v, {n: 1}}}}
		case commaOk:
			f.regs[dst] = Value{r: &Agg{[]Value{{}, {}}}}
		case ok:
			f.regs[dst] = i.v
		default:
			return m.throwPlain(conversionText(v, xt, t))
		}
		return next
	}
}
