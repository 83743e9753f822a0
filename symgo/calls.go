package main

import (
	"fmt"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (req + 8191) &^ 8191
}

func roundup(n, esize int) int {
	if esize == 0 {
		return n
	}
	return roundupsize(n*esize, true) / esize
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// growCap mimics the capacity chosen by the runtime, so that aliasing through append is modelled.
func growCap(newLen, oldCap, esize int, ptrs bool) int {
	if esize == 0 {
		return newLen
	}
	newcap := oldCap
	if newLen > 2*oldCap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = 2 * oldCap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	_ = bits.Len
	return roundupsize(newcap*esize, !ptrs) / esize
}

type callSite struct {
	args []int32
}

func (x *fnc) args(vs []ssa.Value) []int32 {
	r := make([]int32, len(vs))
	for i, v := range vs {
		r[i] = x.operand(v)
	}
	return r
}

func evalArgs(f *Frame, as []int32) []Value {
	r := make([]Value, len(as))
	for i, a := range as {
		r[i] = f.get(a)
	}
	return r
}

func (m *M) method(rt *RType, meth *types.Func) *Func {
	id := meth.Id()
	if c, ok := rt.meth[id]; ok {
		return c
	}
	f := m.p.prog.LookupMethod(rt.t, meth.Pkg(), meth.Name())
	if f == nil {
		m.unsupported("no method " + meth.Name() + " on " + rt.t.String())
	}
	c := m.fn(f)
	rt.meth[id] = c
	return c
}

func (x *fnc) call(cc *ssa.CallCommon, dst int32) execFn {
	as := x.args(cc.Args)
	if cc.IsInvoke() {
		r := x.operand(cc.Value)
		meth := cc.Method
		return func(m *M, f *Frame) action {
			v := f.get(r)
			if v.r == nil {
				return m.throwNil()
			}
			i := v.r.(*Iface)
			fn := m.method(i.t, meth)
			if fn.nat == nil && fn.natCtl == nil {
				nf := m.newFrame(fn, dst)
				nf.regs[0] = i.v
				for j, a := range as {
					nf.regs[j+1] = f.get(a)
				}
				f.pc++
				m.cur.frames = append(m.cur.frames, nf)
				return m.enter()
			}
			args := append([]Value{i.v}, evalArgs(f, as)...)
			return m.callFn(f, fn, nil, args, dst)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(v.Name(), cc, as, dst)
	case *ssa.Function:
		fn := x.m.fn(v)
		return func(m *M, f *Frame) action {
			if fn.nat == nil && fn.natCtl == nil {
				nf := m.newFrame(fn, dst)
				for j, a := range as {
					nf.regs[j] = f.get(a)
				}
				f.pc++
				m.cur.frames = append(m.cur.frames, nf)
				return m.enter()
			}
			return m.callFn(f, fn, nil, evalArgs(f, as), dst)
		}
	}
	r := x.operand(cc.Value)
	return func(m *M, f *Frame) action {
		v := f.get(r)
		if v.r == nil {
			return m.throwNil()
		}
		c := v.r.(*Closure)
		return m.callFn(f, c.fn, c.fv, evalArgs(f, as), dst)
	}
}

func (m *M) newFrame(fn *Func, dst int32) *Frame {
	if !fn.compiled {
		m.compile(fn)
	}
	if fn.code == nil {
		m.unsupported("function without a body: " + fn.name)
	}
	return &Frame{fn: fn, regs: make([]Value, fn.nregs), retDst: dst, epoch: m.depth}
}

// enter accounts for a new frame.
func (m *M) enter() action {
	if n := len(m.cur.frames); n > m.opts.maxDepth {
		panic(pathEnd{"limit", fmt.Sprintf("call depth exceeds %d", m.opts.maxDepth) + m.where()})
	}
	return jumped
}

func (m *M) callFn(f *Frame, fn *Func, fv, args []Value, dst int32) action {
	if fn.nat != nil {
		fn.steps++
		f.regs[dst] = fn.nat(m, args)
		return next
	}
	if fn.natCtl != nil {
		fn.steps++
		return fn.natCtl(m, m.cur, args, func(v Value) { f.regs[dst] = v })
	}
	nf := m.newFrame(fn, dst)
	n := copy(nf.regs, args)
	copy(nf.regs[n:], fv)
	f.pc++
	m.cur.frames = append(m.cur.frames, nf)
	return m.enter()
}

// invokeClosure runs a deferred call. The caller's pc is left alone.
func (m *M) invokeClosure(g *G, fnv Value, args []Value, dst int32, isDefer, byPanic bool) action {
	if fnv.r == nil {
		return m.throwNil()
	}
	c := fnv.r.(*Closure)
	if c.bi != "" {
		m.builtinCall(c.bi, args)
		return jumped
	}
	if c.fn.nat != nil {
		c.fn.nat(m, args)
		return jumped
	}
	if c.fn.natCtl != nil {
		a := c.fn.natCtl(m, g, args, func(Value) {})
		if a == blocked {
			m.unsupported("deferred call blocks")
		}
		return jumped
	}
	nf := m.newFrame(c.fn, dst)
	n := copy(nf.regs, args)
	copy(nf.regs[n:], c.fv)
	nf.isDefer, nf.byPanic = isDefer, byPanic
	g.frames = append(g.frames, nf)
	return m.enter()
}

// callee evaluates the function and arguments of a go or defer statement.
func (x *fnc) callee(cc *ssa.CallCommon) func(m *M, f *Frame) (Value, []Value, bool) {
	as := x.args(cc.Args)
	if cc.IsInvoke() {
		r := x.operand(cc.Value)
		meth := cc.Method
		return func(m *M, f *Frame) (Value, []Value, bool) {
			v := f.get(r)
			if v.r == nil {
				return Value{}, nil, false
			}
			i := v.r.(*Iface)
			return Value{r: &Closure{fn: m.method(i.t, meth)}}, append([]Value{i.v}, evalArgs(f, as)...), true
		}
	}
	r := x.operand(cc.Value)
	return func(m *M, f *Frame) (Value, []Value, bool) { return f.get(r), evalArgs(f, as), true }
}

func (x *fnc) goStmt(in *ssa.Go) execFn {
	get := x.callee(in.Common())
	return func(m *M, f *Frame) action {
		if m.yield() {
			return jumped
		}
		fv, args, ok := get(m, f)
		if !ok || fv.r == nil {
			return m.throwNil()
		}
		c := fv.r.(*Closure)
		if c.fn == nil || c.fn.nat != nil || c.fn.natCtl != nil {
			m.unsupported("go of a builtin")
		}
		m.nextG++
		g := &G{id: m.nextG}
		if m.raceOn {
			m.tick(m.cur)
			g.vc = vcCopy(m.cur.vc)
			m.tick(m.cur)
		}
		nf := m.newFrame(c.fn, -1)
		n := copy(nf.regs, args)
		copy(nf.regs[n:], c.fv)
		g.frames = []*Frame{nf}
		m.gs = append(m.gs, g)
		return next
	}
}

func (x *fnc) deferStmt(in *ssa.Defer) execFn {
	get := x.callee(in.Common())
	return func(m *M, f *Frame) action {
		fv, args, ok := get(m, f)
		if !ok {
			return m.throwNil()
		}
		f.defers = &deferred{fn: fv, args: args, next: f.defers}
		return next
	}
}

func (m *M) popFrame(g *G) {
	g.frames = g.frames[:len(g.frames)-1]
	if n := len(g.frames); n > 0 {
		if t := g.frames[n-1]; t.epoch != m.depth {
			g.frames[n-1] = t.clone(m.depth)
		}
	}
}

func (m *M) ret(f *Frame, v Value) action {
	g := m.cur
	m.popFrame(g)
	if len(g.frames) == 0 {
		m.goroutineDone(g)
		return jumped
	}
	if f.isDefer {
		if f.byPanic {
			return m.unwind(g)
		}
		return jumped
	}
	if f.retDst >= 0 {
		g.top().regs[f.retDst] = v
	}
	return jumped
}

func (m *M) throw(v Value) action {
	g := m.cur
	g.panicking = true
	g.panicVal = v
	g.panicAt = m.where()
	return m.unwind(g)
}

func (m *M) throwRT(msg string) action {
	return m.throw(Value{r: &Iface{m.rtErr, strVal(msg)}})
}

// throwPlain throws a runtime error whose text has no prefix.
func (m *M) throwPlain(msg string) action {
	return m.throw(Value{r: &Iface{m.plainErr, strVal(msg)}})
}

func (m *M) throwNil() action {
	return m.throwRT("invalid memory address or nil pointer dereference")
}

func (m *M) unwind(g *G) action {
	for len(g.frames) > 0 {
		f := g.top()
		if f.epoch != m.depth {
			f = f.clone(m.depth)
			g.frames[len(g.frames)-1] = f
		}
		if d := f.defers; d != nil {
			f.defers = d.next
			n := len(g.frames)
			m.invokeClosure(g, d.fn, d.args, -1, true, true)
			if len(g.frames) > n {
				return jumped
			}
			continue
		}
		if !g.panicking {
			if f.fn.recover >= 0 {
				f.pc = f.fn.recover
				return jumped
			}
			var v Value
			if f.fn.nresults > 1 {
				v = Value{r: &Agg{make([]Value, f.fn.nresults)}}
			}
			return m.ret(f, v)
		}
		m.popFrame(g)
	}
	panic(pathEnd{"panic", m.panicString(g.panicVal) + g.panicAt})
}

func (m *M) panicString(v Value) string {
	if v.r == nil {
		return "nil"
	}
	i := v.r.(*Iface)
	if i.t == m.rtErr {
		return "runtime error: " + m.show(str(i.v))
	}
	if i.t == m.plainErr {
		return m.show(str(i.v))
	}
	if k, ok := kindOf(i.t.t); ok {
		if k.isStr {
			return m.show(str(i.v))
		}
		return fmt.Sprint(int64(i.v.n))
	}
	return i.t.t.String()
}

// show renders a string under the current model.
func (m *M) show(s *Str) string {
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(m.ts.eval(t, m.model))
	}
	return string(b)
}

func (x *fnc) builtin(name string, cc *ssa.CallCommon, as []int32, dst int32) execFn {
	set1 := func(g func(m *M, v Value) Value) execFn {
		a := as[0]
		return func(m *M, f *Frame) action {
			f.regs[dst] = g(m, f.get(a))
			return next
		}
	}
	var t types.Type
	if len(cc.Args) > 0 {
		t = cc.Args[0].Type()
	}
	switch name {
	case "len", "cap":
		isCap := name == "cap"
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return set1(func(m *M, v Value) Value { return Value{n: uint64(str(v).len())} })
		case *types.Slice:
			return set1(func(m *M, v Value) Value {
				if v.r == nil {
					return Value{}
				}
				if isCap {
					return Value{n: uint64(v.r.(*Slice).cap)}
				}
				return Value{n: uint64(v.r.(*Slice).len)}
			})
		case *types.Map:
			return set1(func(m *M, v Value) Value {
				if v.r == nil {
					return Value{}
				}
				if m.raceOn {
					m.raceMap(v.r.(*Map), false)
				}
				return Value{n: uint64(v.r.(*Map).n)}
			})
		case *types.Chan:
			return set1(func(m *M, v Value) Value {
				if v.r == nil {
					return Value{}
				}
				if isCap {
					return Value{n: uint64(v.r.(*Chan).cap)}
				}
				return Value{n: uint64(v.r.(*Chan).n())}
			})
		case *types.Array:
			return set1(func(m *M, v Value) Value { return Value{n: uint64(u.Len())} })
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return set1(func(m *M, v Value) Value { return Value{n: n} })
		}
	case "append":
		st := t.Underlying().(*types.Slice)
		esz := x.m.p.layout(st.Elem()).n
		bsz := int(x.m.p.sizes.Sizeof(st.Elem()))
		ptrs := hasPointers(st.Elem())
		a, b := as[0], as[1]
		_, fromStr := cc.Args[1].Type().Underlying().(*types.Basic)
		return func(m *M, f *Frame) action {
			va, vb := f.get(a), f.get(b)
			var src []Value
			n := 0
			if fromStr {
				s := str(vb)
				n = s.len()
				src = make([]Value, n)
				for i := range src {
					src[i] = m.fromTerm(m.strByte(s, i), kind{w: 8})
				}
			} else if vb.r != nil {
				s := vb.r.(*Slice)
				n = s.len
				src = s.obj.cells[s.off : s.off+n*esz]
				if m.raceOn {
					for i := range src {
						m.race(s.obj, s.off+i, false)
					}
				}
			}
			if n == 0 {
				f.regs[dst] = va
				return next
			}
			s := &Slice{esz: esz}
			if va.r != nil {
				*s = *va.r.(*Slice)
			}
			if s.len+n > s.cap {
				nc := growCap(s.len+n, s.cap, bsz, ptrs)
				o := m.newObj(nc*esz, "append")
				if s.obj != nil {
					copy(o.cells, s.obj.cells[s.off:s.off+s.len*esz])
					if m.raceOn {
						for i := 0; i < s.len*esz; i++ {
							m.race(s.obj, s.off+i, false)
						}
					}
				}
				copy(o.cells[s.len*esz:], src)
				f.regs[dst] = Value{r: &Slice{obj: o, len: s.len + n, cap: nc, esz: esz}}
				return next
			}
			base := s.off + s.len*esz
			tmp := append([]Value(nil), src...)
			for i, v := range tmp {
				if m.raceOn {
					m.race(s.obj, base+i, true)
				}
				m.write(s.obj, base+i, v)
			}
			f.regs[dst] = Value{r: &Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap, esz: esz}}
			return next
		}
	case "copy":
		a, b := as[0], as[1]
		return func(m *M, f *Frame) action {
			va, vb := f.get(a), f.get(b)
			if va.r == nil || vb.r == nil {
				f.regs[dst] = Value{}
				return next
			}
			d := va.r.(*Slice)
			var src []Value
			n := 0
			if s, ok := vb.r.(*Str); ok {
				n = min(d.len, s.len())
				src = make([]Value, n)
				for i := range src {
					src[i] = m.fromTerm(m.strByte(s, i), kind{w: 8})
				}
			} else {
				s := vb.r.(*Slice)
				n = min(d.len, s.len)
				src = append([]Value(nil), s.obj.cells[s.off:s.off+n*d.esz]...)
				if m.raceOn {
					for i := range src {
						m.race(s.obj, s.off+i, false)
					}
				}
			}
			for i, v := range src {
				if m.raceOn {
					m.race(d.obj, d.off+i, true)
				}
				m.write(d.obj, d.off+i, v)
			}
			f.regs[dst] = Value{n: uint64(n)}
			return next
		}
	case "close":
		a := as[0]
		return func(m *M, f *Frame) action {
			if m.yield() {
				return jumped
			}
			return m.chanClose(f.get(a))
		}
	case "delete":
		a, b := as[0], as[1]
		return func(m *M, f *Frame) action {
			if v := f.get(a); v.r != nil {
				mp := v.r.(*Map)
				m.mapDelete(mp, m.mapFind(mp, f.get(b)))
			}
			return next
		}
	case "clear":
		a := as[0]
		return func(m *M, f *Frame) action {
			switch v := f.get(a).r.(type) {
			case *Map:
				if m.raceOn {
					m.raceMap(v, true)
				}
				m.mapDirty(v)
				v.ents, v.idx, v.n, v.nsym = nil, map[string]int{}, 0, 0
			case *Slice:
				for i := 0; i < v.len*v.esz; i++ {
					m.write(v.obj, v.off+i, Value{})
				}
			}
			return next
		}
	case "min", "max":
		k, _ := kindOf(t)
		isMax := name == "max"
		return func(m *M, f *Frame) action {
			r := f.get(as[0])
			for _, a := range as[1:] {
				v := f.get(a)
				if k.isStr {
					if c := m.strCmp(str(v), str(r)); c > 0 == isMax && c != 0 {
						r = v
					}
					continue
				}
				if k.float {
					m.unsupported("min/max of floats")
				}
				op := OUlt
				if k.signed {
					op = OSlt
				}
				tr, tv := m.term(r, k), m.term(v, k)
				lt := m.ts.bin(op, 0, tv, tr)
				if isMax {
					lt = m.ts.bin(op, 0, tr, tv)
				}
				r = m.fromTerm(m.ts.Ite(lt, tv, tr), k)
			}
			f.regs[dst] = r
			return next
		}
	case "recover":
		return func(m *M, f *Frame) action {
			g := m.cur
			if f.byPanic && g.panicking {
				g.panicking = false
				f.regs[dst] = g.panicVal
			} else {
				f.regs[dst] = Value{}
			}
			return next
		}
	case "Sizeof":
		n := x.m.p.sizes.Sizeof(t)
		return func(m *M, f *Frame) action {
			f.regs[dst] = Value{n: uint64(n)}
			return next
		}
	case "print", "println":
		return func(m *M, f *Frame) action { return next }
	case "ssa:wrapnilchk":
		a := as[0]
		return func(m *M, f *Frame) action {
			v := f.get(a)
			if v.r == nil {
				return m.throwNil()
			}
			f.regs[dst] = v
			return next
		}
	case "String": // unsafe.String
		a, b := as[0], as[1]
		return func(m *M, f *Frame) action {
			p, n := f.get(a), int(m.intVal(f.get(b)))
			if n == 0 {
				f.regs[dst] = Value{}
				return next
			}
			o := p.r.(*Obj)
			if sv, ok := o.ext.(*Str); ok { // from unsafe.StringData
				f.regs[dst] = Value{r: sv.slice(int(p.n), int(p.n)+n)}
				return next
			}
			f.regs[dst] = Value{r: m.strOfBytes(Value{r: &Slice{obj: o, off: int(p.n), len: n, cap: n, esz: 1}})}
			return next
		}
	case "StringData":
		return set1(func(m *M, v Value) Value {
			s := str(v)
			if s.len() == 0 {
				return Value{}
			}
			o := m.bytesVal(s, 0).r.(*Slice).obj
			o.ext = s
			return Value{r: o}
		})
	case "SliceData":
		return set1(func(m *M, v Value) Value {
			if v.r == nil {
				return Value{}
			}
			s := v.r.(*Slice)
			return Value{r: s.obj, n: uint64(s.off)}
		})
	case "Slice": // unsafe.Slice
		a, b := as[0], as[1]
		esz := x.m.p.layout(elemOf(t)).n
		return func(m *M, f *Frame) action {
			p, n := f.get(a), int(m.intVal(f.get(b)))
			if p.r == nil {
				f.regs[dst] = Value{}
				return next
			}
			f.regs[dst] = Value{r: &Slice{obj: p.r.(*Obj), off: int(p.n), len: n, cap: n, esz: esz}}
			return next
		}
	}
	return func(m *M, f *Frame) action {
		m.unsupported("builtin " + name)
		return next
	}
}

// builtinCall runs a deferred builtin.
func (m *M) builtinCall(name string, args []Value) {
	switch name {
	case "close":
		m.chanClose(args[0])
	case "delete":
		if args[0].r != nil {
			mp := args[0].r.(*Map)
			m.mapDelete(mp, m.mapFind(mp, args[1]))
		}
	case "recover", "print", "println":
		if name == "recover" && m.cur.panicking {
			m.cur.panicking = false
		}
	default:
		m.unsupported("deferred builtin " + name)
	}
}
