package main

import (
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *fnc) binop(in *ssa.BinOp, dst int32) execFn {
	a, b := x.operand(in.X), x.operand(in.Y)
	t := in.X.Type()
	op := in.Op
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		if k, ok := kindOf(t); ok && !k.isStr && !k.float {
			return func(m *M, f *Frame) action {
				va, vb := f.get(a), f.get(b)
				if va.r == nil && vb.r == nil {
					f.regs[dst] = boolVal((va.n == vb.n) != neg)
					return next
				}
				r := m.ts.Eq(m.term(va, k), m.term(vb, k))
				if neg {
					r = m.ts.Not(r)
				}
				f.regs[dst] = m.boolTerm(r)
				return next
			}
		}
		t2 := in.Y.Type()
		_, i1 := t.Underlying().(*types.Interface)
		_, i2 := t2.Underlying().(*types.Interface)
		var r1, r2 *RType
		if i1 && !i2 {
			r2 = x.m.p.rtype(t2)
		} else if i2 && !i1 {
			r1 = x.m.p.rtype(t)
			t = t2
		}
		return func(m *M, f *Frame) action {
			va, vb := f.get(a), f.get(b)
			if r2 != nil {
				vb = Value{r: &Iface{r2, vb}}
			} else if r1 != nil {
				va = Value{r: &Iface{r1, va}}
			}
			r, ok := m.eq(t, va, vb)
			if !ok {
				return m.throwRT("comparing uncomparable type")
			}
			if neg {
				r = m.ts.Not(r)
			}
			f.regs[dst] = m.boolTerm(r)
			return next
		}
	}
	k, ok := kindOf(t)
	if !ok {
		panic(pathEnd{"unsupported", "binop on " + t.String()})
	}
	switch {
	case k.isStr:
		return func(m *M, f *Frame) action {
			sa, sb := str(f.get(a)), str(f.get(b))
			if op == token.ADD {
				f.regs[dst] = Value{r: m.concat(sa, sb)}
				return next
			}
			c := m.strCmp(sa, sb)
			var r bool
			switch op {
			case token.LSS:
				r = c < 0
			case token.LEQ:
				r = c <= 0
			case token.GTR:
				r = c > 0
			case token.GEQ:
				r = c >= 0
			}
			f.regs[dst] = boolVal(r)
			return next
		}
	case k.float:
		return func(m *M, f *Frame) action {
			p, q := math.Float64frombits(f.get(a).n), math.Float64frombits(f.get(b).n)
			if f.get(a).r != nil || f.get(b).r != nil {
				m.unsupported("symbolic float")
			}
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			default:
				var c bool
				switch op {
				case token.LSS:
					c = p < q
				case token.LEQ:
					c = p <= q
				case token.GTR:
					c = p > q
				case token.GEQ:
					c = p >= q
				}
				f.regs[dst] = boolVal(c)
				return next
			}
			if k.w == 32 {
				r = float64(float32(r))
			}
			f.regs[dst] = Value{n: math.Float64bits(r)}
			return next
		}
	}
	ky, _ := kindOf(in.Y.Type())
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		top := map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OAnd, token.OR: OOr, token.XOR: OXor, token.AND_NOT: OAnd}[op]
		return func(m *M, f *Frame) action {
			va, vb := f.get(a), f.get(b)
			if va.r == nil && vb.r == nil {
				var r uint64
				switch op {
				case token.ADD:
					r = va.n + vb.n
				case token.SUB:
					r = va.n - vb.n
				case token.MUL:
					r = va.n * vb.n
				case token.AND:
					r = va.n & vb.n
				case token.OR:
					r = va.n | vb.n
				case token.XOR:
					r = va.n ^ vb.n
				case token.AND_NOT:
					r = va.n &^ vb.n
				}
				f.regs[dst] = Value{n: norm(r, k)}
				return next
			}
			ta, tb := m.term(va, k), m.term(vb, k)
			if op == token.AND_NOT {
				tb = m.ts.un(ONot, k.w, tb)
			}
			f.regs[dst] = m.fromTerm(m.ts.bin(top, k.w, ta, tb), k)
			return next
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(m *M, f *Frame) action {
			va, vb := f.get(a), f.get(b)
			if op == token.GTR || op == token.GEQ {
				va, vb = vb, va
			}
			strict := op == token.LSS || op == token.GTR
			if va.r == nil && vb.r == nil {
				var r bool
				switch {
				case k.signed && strict:
					r = int64(va.n) < int64(vb.n)
				case k.signed:
					r = int64(va.n) <= int64(vb.n)
				case strict:
					r = va.n < vb.n
				default:
					r = va.n <= vb.n
				}
				f.regs[dst] = boolVal(r)
				return next
			}
			o := OUle
			switch {
			case k.signed && strict:
				o = OSlt
			case k.signed:
				o = OSle
			case strict:
				o = OUlt
			}
			f.regs[dst] = m.boolTerm(m.ts.bin(o, 0, m.term(va, k), m.term(vb, k)))
			return next
		}
	case token.QUO, token.REM:
		return func(m *M, f *Frame) action {
			va, vb := f.get(a), f.get(b)
			if vb.r != nil {
				if !m.branch(m.ts.Not(m.ts.Eq(m.term(vb, k), m.ts.Const(k.w, 0)))) {
					return m.throwRT("integer divide by zero")
				}
			} else if vb.n == 0 {
				return m.throwRT("integer divide by zero")
			}
			var o Op
			switch {
			case k.signed && op == token.QUO:
				o = OSDiv
			case k.signed:
				o = OSRem
			case op == token.QUO:
				o = OUDiv
			default:
				o = OURem
			}
			if va.r == nil && vb.r == nil {
				f.regs[dst] = Value{n: norm(evalOp(o, k.w, va.n&mask(k.w), vb.n&mask(k.w), k.w), k)}
				return next
			}
			f.regs[dst] = m.fromTerm(m.ts.bin(o, k.w, m.term(va, k), m.term(vb, k)), k)
			return next
		}
	case token.SHL, token.SHR:
		return func(m *M, f *Frame) action {
			va, vb := f.get(a), f.get(b)
			if vb.r == nil && ky.signed && int64(vb.n) < 0 {
				return m.throwRT("negative shift amount")
			}
			if vb.r != nil && ky.signed {
				if !m.branch(m.ts.bin(OSle, 0, m.ts.Const(ky.w, 0), m.term(vb, ky))) {
					return m.throwRT("negative shift amount")
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if k.signed {
					o = OAShr
				}
			}
			if va.r == nil && vb.r == nil {
				f.regs[dst] = Value{n: norm(evalOp(o, k.w, va.n&mask(k.w), vb.n, k.w), k)}
				return next
			}
			ta, tb := m.term(va, k), m.term(vb, ky)
			switch {
			case ky.w < k.w:
				tb = m.ts.un(OZExt, k.w, tb)
			case ky.w > k.w:
				big := m.ts.bin(OUle, 0, m.ts.Const(ky.w, uint64(k.w)), tb)
				tb = m.ts.Ite(big, m.ts.Const(k.w, uint64(k.w)), m.ts.un(OExtract, k.w, tb))
			}
			f.regs[dst] = m.fromTerm(m.ts.bin(o, k.w, ta, tb), k)
			return next
		}
	}
	panic(pathEnd{"unsupported", "binop " + in.String()})
}

func (m *M) concat(a, b *Str) *Str {
	if a.len() == 0 {
		return b
	}
	if b.len() == 0 {
		return a
	}
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	r := make([]*Term, 0, a.len()+b.len())
	r = append(r, m.strTerms(a)...)
	r = append(r, m.strTerms(b)...)
	return &Str{b: r}
}

// strEq compares strings, forking byte by byte where the outcome is open.
func (m *M) strEq(a, b *Str) bool {
	if a.len() != b.len() {
		return false
	}
	if a.b == nil && b.b == nil {
		return a.s == b.s
	}
	// settle the positions that need no decision first
	n := a.len()
	for i := 0; i < n; i++ {
		x, y := m.strByte(a, i), m.strByte(b, i)
		if x != y && m.ts.Eq(x, y) == m.ts.False {
			return false
		}
	}
	for i := 0; i < n; i++ {
		x, y := m.strByte(a, i), m.strByte(b, i)
		if x != y && !m.branch(m.ts.Eq(x, y)) {
			return false
		}
	}
	return true
}

func (m *M) strCmp(a, b *Str) int {
	if a.b == nil && b.b == nil {
		return strings.Compare(a.s, b.s)
	}
	n := min(a.len(), b.len())
	for i := 0; i < n; i++ {
		x, y := m.strByte(a, i), m.strByte(b, i)
		if x == y || m.branch(m.ts.Eq(x, y)) {
			continue
		}
		if m.branch(m.ts.bin(OUlt, 0, x, y)) {
			return -1
		}
		return 1
	}
	switch {
	case a.len() < b.len():
		return -1
	case a.len() > b.len():
		return 1
	}
	return 0
}

// eq is == of two values of type t; ok is false if the dynamic type is not comparable.
func (m *M) eq(t types.Type, a, b Value) (*Term, bool) {
	if k, ok := kindOf(t); ok {
		switch {
		case k.isStr:
			return m.ts.Bool(m.strEq(str(a), str(b))), true
		case k.float:
			return m.ts.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n)), true
		}
		return m.ts.Eq(m.term(a, k), m.term(b, k)), true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.r == nil || b.r == nil {
			return m.ts.Bool(a.r == nil && b.r == nil), true
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return m.ts.False, true
		}
		if !types.Comparable(x.t.t) {
			return m.ts.False, false
		}
		return m.eq(x.t.t, x.v, y.v)
	case *types.Struct, *types.Array:
		l := m.p.layout(u)
		ca, cb := aggCells(a, l.n), aggCells(b, l.n)
		r := m.ts.True
		for i, kt := range l.kinds {
			e, ok := m.eq(kt, ca[i], cb[i])
			if !ok {
				return e, false
			}
			r = m.ts.And(r, e)
			if r == m.ts.False {
				break
			}
		}
		return r, true
	case *types.Slice, *types.Map, *types.Signature:
		return m.ts.Bool(a.r == nil && b.r == nil), true
	}
	if o, ok := a.r.(*SymPtr); ok {
		_ = o
		m.unsupported("comparison of symbolic pointers")
	}
	return m.ts.Bool(a.r == b.r && (a.r == nil || a.n == b.n)), true
}

func (m *M) bytesOf(v Value) []*Term {
	if v.r == nil {
		return nil
	}
	s := v.r.(*Slice)
	r := make([]*Term, s.len)
	for i := range r {
		c := s.obj.cells[s.off+i]
		if m.raceOn {
			m.race(s.obj, s.off+i, false)
		}
		if c.r == nil {
			r[i] = m.ts.bytes[byte(c.n)]
		} else {
			r[i] = c.r.(*Term)
		}
	}
	return r
}

// strOfBytes is string(b).
func (m *M) strOfBytes(v Value) *Str {
	if v.r == nil {
		return emptyStr
	}
	s := v.r.(*Slice)
	if s.len == 0 {
		return emptyStr
	}
	cells := s.obj.cells[s.off : s.off+s.len]
	if m.raceOn {
		for i := range cells {
			m.race(s.obj, s.off+i, false)
		}
	}
	conc := true
	for i := range cells {
		if cells[i].r != nil {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(cells))
		for i := range cells {
			b[i] = byte(cells[i].n)
		}
		return &Str{s: string(b)}
	}
	return mkStr(m.bytesOf(v))
}

func (m *M) bytesVal(s *Str, extra int) Value {
	n := s.len()
	o := m.newObj(n+extra, "bytes")
	for i := 0; i < n; i++ {
		if s.b != nil {
			o.cells[i] = m.fromTerm(s.b[i], kind{w: 8})
		} else {
			o.cells[i] = Value{n: uint64(s.s[i])}
		}
	}
	return Value{r: &Slice{obj: o, len: n, cap: n + extra, esz: 1}}
}

func (x *fnc) convert(in *ssa.Convert, dst int32) execFn {
	a := x.operand(in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	kf, okf := kindOf(from)
	kt, okt := kindOf(to)
	set := func(g func(m *M, v Value) Value) execFn {
		return func(m *M, f *Frame) action {
			f.regs[dst] = g(m, f.get(a))
			return next
		}
	}
	switch {
	case okf && okt && kf.isStr && kt.isStr:
		return move(a, dst)
	case okf && okt && kt.isStr: // integer to string
		return set(func(m *M, v Value) Value {
			if v.r == nil {
				n := int64(v.n)
				r := utf8.RuneError
				if (kf.signed && n >= 0 || !kf.signed) && v.n <= utf8.MaxRune {
					r = rune(n)
				}
				return strVal(string(r))
			}
			return Value{r: mkStr(m.encodeRune(m.term(v, kf), kf))}
		})
	case okf && okt && !kf.float && !kt.float:
		return set(func(m *M, v Value) Value {
			if v.r == nil {
				return Value{n: norm(v.n, kt)}
			}
			return m.fromTerm(m.resize(v.r.(*Term), kf, kt), kt)
		})
	case okf && okt:
		return set(func(m *M, v Value) Value {
			if v.r != nil {
				m.unsupported("symbolic float conversion")
			}
			switch {
			case kf.float && kt.float:
				x := math.Float64frombits(v.n)
				if kt.w == 32 {
					x = float64(float32(x))
				}
				return Value{n: math.Float64bits(x)}
			case kf.float:
				x := math.Float64frombits(v.n)
				if kt.signed {
					return Value{n: norm(uint64(int64(x)), kt)}
				}
				return Value{n: norm(uint64(x), kt)}
			}
			var x float64
			if kf.signed {
				x = float64(int64(v.n))
			} else {
				x = float64(v.n)
			}
			if kt.w == 32 {
				x = float64(float32(x))
			}
			return Value{n: math.Float64bits(x)}
		})
	}
	if okt && kt.isStr {
		if sl, ok := from.(*types.Slice); ok {
			ek, _ := kindOf(sl.Elem())
			if ek.w == 8 {
				return set(func(m *M, v Value) Value { return Value{r: m.strOfBytes(v)} })
			}
			return set(func(m *M, v Value) Value {
				if v.r == nil {
					return Value{}
				}
				s := v.r.(*Slice)
				var out []*Term
				for i := 0; i < s.len; i++ {
					c := s.obj.cells[s.off+i]
					if c.r == nil {
						for _, ch := range []byte(string(rune(int64(c.n)))) {
							out = append(out, m.ts.Byte(ch))
						}
					} else {
						out = append(out, m.encodeRune(m.term(c, ek), ek)...)
					}
				}
				return Value{r: mkStr(out)}
			})
		}
	}
	if okf && kf.isStr {
		if sl, ok := to.(*types.Slice); ok {
			ek, _ := kindOf(sl.Elem())
			if ek.w == 8 {
				return set(func(m *M, v Value) Value {
					s := str(v)
					n := s.len()
					return m.bytesVal(s, roundup(n, 1)-n)
				})
			}
			return set(func(m *M, v Value) Value {
				s := str(v)
				var rs []Value
				for i := 0; i < s.len(); {
					r, n := m.decodeRune(s, i)
					rs = append(rs, r)
					i += n
				}
				o := m.newObj(len(rs), "runes")
				copy(o.cells, rs)
				return Value{r: &Slice{obj: o, len: len(rs), cap: len(rs), esz: 1}}
			})
		}
	}
	isPtr := func(t types.Type) bool {
		switch u := t.(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return u.Kind() == types.UnsafePointer
		}
		return false
	}
	if isPtr(from) && isPtr(to) {
		return move(a, dst)
	}
	return func(m *M, f *Frame) action {
		m.unsupported("conversion " + from.String() + " to " + to.String())
		return next
	}
}

func (m *M) resize(t *Term, from, to kind) *Term {
	switch {
	case to.w < from.w:
		return m.ts.un(OExtract, to.w, t)
	case to.w > from.w && from.signed:
		return m.ts.un(OSExt, to.w, t)
	case to.w > from.w:
		return m.ts.un(OZExt, to.w, t)
	}
	return t
}

// encodeRune is the UTF-8 encoding of a symbolic rune.
func (m *M) encodeRune(t *Term, k kind) []*Term {
	t = m.resize(t, k, kind{w: 64, signed: true})
	c := func(v uint64) *Term { return m.ts.Const(64, v) }
	lt := func(v uint64) bool { return m.branch(m.ts.bin(OUlt, 0, t, c(v))) }
	part := func(sh, msk, or uint64) *Term {
		x := m.ts.bin(OLShr, 64, t, c(sh))
		x = m.ts.bin(OAnd, 64, x, c(msk))
		x = m.ts.bin(OOr, 64, x, c(or))
		return m.ts.un(OExtract, 8, x)
	}
	bad := []*Term{m.ts.Byte(0xEF), m.ts.Byte(0xBF), m.ts.Byte(0xBD)}
	switch {
	case lt(0x80):
		return []*Term{m.ts.un(OExtract, 8, t)}
	case lt(0x800):
		return []*Term{part(6, 0x1f, 0xC0), part(0, 0x3f, 0x80)}
	case lt(0xD800):
		return []*Term{part(12, 0x0f, 0xE0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	case lt(0xE000):
		return bad
	case lt(0x10000):
		return []*Term{part(12, 0x0f, 0xE0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	case lt(0x110000):
		return []*Term{part(18, 0x07, 0xF0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	}
	return bad
}

// decodeRune decodes the rune at s[i:], forking on the form of the encoding.
func (m *M) decodeRune(s *Str, i int) (Value, int) {
	n := s.len()
	if s.b == nil {
		r, w := utf8.DecodeRuneInString(s.s[i:])
		return Value{n: uint64(int64(r))}, w
	}
	k32 := kind{w: 32, signed: true}
	b := func(j int) *Term { return s.b[i+j] }
	in := func(j int, lo, hi byte) bool {
		t := b(j)
		return m.branch(m.ts.And(m.ts.bin(OUle, 0, m.ts.Byte(lo), t), m.ts.bin(OUle, 0, t, m.ts.Byte(hi))))
	}
	bits := func(j int, msk byte, sh uint64) *Term {
		x := m.ts.un(OZExt, 32, m.ts.bin(OAnd, 8, b(j), m.ts.Byte(msk)))
		return m.ts.bin(OShl, 32, x, m.ts.Const(32, sh))
	}
	or := func(ts ...*Term) Value {
		r := ts[0]
		for _, t := range ts[1:] {
			r = m.ts.bin(OOr, 32, r, t)
		}
		return m.fromTerm(r, k32)
	}
	if m.branch(m.ts.bin(OUlt, 0, b(0), m.ts.Byte(0x80))) {
		return m.fromTerm(m.ts.un(OZExt, 32, b(0)), k32), 1
	}
	bad := Value{n: uint64(utf8.RuneError)}
	rest := n - i
	if in(0, 0xC2, 0xDF) {
		if rest >= 2 && in(1, 0x80, 0xBF) {
			return or(bits(0, 0x1f, 6), bits(1, 0x3f, 0)), 2
		}
		return bad, 1
	}
	if in(0, 0xE0, 0xEF) {
		lo, hi := byte(0x80), byte(0xBF)
		if m.branch(m.ts.Eq(b(0), m.ts.Byte(0xE0))) {
			lo = 0xA0
		} else if m.branch(m.ts.Eq(b(0), m.ts.Byte(0xED))) {
			hi = 0x9F
		}
		if rest >= 3 && in(1, lo, hi) && in(2, 0x80, 0xBF) {
			return or(bits(0, 0x0f, 12), bits(1, 0x3f, 6), bits(2, 0x3f, 0)), 3
		}
		return bad, 1
	}
	if in(0, 0xF0, 0xF4) {
		lo, hi := byte(0x80), byte(0xBF)
		if m.branch(m.ts.Eq(b(0), m.ts.Byte(0xF0))) {
			lo = 0x90
		} else if m.branch(m.ts.Eq(b(0), m.ts.Byte(0xF4))) {
			hi = 0x8F
		}
		if rest >= 4 && in(1, lo, hi) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) {
			return or(bits(0, 0x07, 18), bits(1, 0x3f, 12), bits(2, 0x3f, 6), bits(3, 0x3f, 0)), 4
		}
		return bad, 1
	}
	return bad, 1
}

// ---- maps ----

func (m *M) newMap(t *types.Map) *Map {
	m.nextObj++
	return &Map{idx: map[string]int{}, epoch: m.depth, id: m.nextObj, t: t}
}

// mapDirty saves the map's state if this epoch has not done so yet.
func (m *M) mapDirty(mp *Map) {
	if mp.epoch == m.depth {
		return
	}
	old := *mp
	m.undoLog(func() {
		sh := mp.sh
		*mp = old
		mp.sh = sh
	})
	mp.ents = append([]mapEnt(nil), mp.ents...)
	mp.idx = make(map[string]int, len(old.idx)+1)
	for k, v := range old.idx {
		mp.idx[k] = v
	}
	mp.epoch = m.depth
}

// mapFind returns the entry for a key or -1, forking where symbolic bytes leave it open.
func (m *M) mapFind(mp *Map, k Value) int {
	ks, conc := m.keyOf(mp.t.Key(), k)
	if conc && mp.nsym == 0 {
		if i, ok := mp.idx[ks]; ok {
			return i
		}
		return -1
	}
	if kd, _ := kindOf(mp.t.Key()); kd.isStr {
		return m.mapFindStr(mp, str(k))
	}
	for i := range mp.ents {
		if mp.ents[i].dead {
			continue
		}
		e, ok := m.eq(mp.t.Key(), mp.ents[i].k, k)
		if ok && m.branch(e) {
			return i
		}
	}
	return -1
}

func (m *M) mapFindStr(mp *Map, s *Str) int {
	n := s.len()
	var cand []int
	var syms []int
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.dead {
			continue
		}
		es := str(e.k)
		if es.len() != n {
			continue
		}
		if es.b != nil {
			syms = append(syms, i)
		} else {
			cand = append(cand, i)
		}
	}
	for _, i := range syms {
		if m.strEq(str(mp.ents[i].k), s) {
			return i
		}
	}
	for j := 0; j < n && len(cand) > 0; j++ {
		if s.b == nil || s.b[j].op == OConst {
			c := m.strByte(s, j).k
			var nc []int
			for _, i := range cand {
				if uint64(str(mp.ents[i].k).s[j]) == c {
					nc = append(nc, i)
				}
			}
			cand = nc
			continue
		}
		t := s.b[j]
		var order []byte
		groups := map[byte][]int{}
		for _, i := range cand {
			c := str(mp.ents[i].k).s[j]
			if groups[c] == nil {
				order = append(order, c)
			}
			groups[c] = append(groups[c], i)
		}
		any := m.ts.False
		for _, c := range order {
			any = m.ts.Or(any, m.ts.Eq(t, m.ts.Byte(c)))
		}
		if !m.branch(any) {
			return -1
		}
		cand = nil
		for _, c := range order {
			if m.branch(m.ts.Eq(t, m.ts.Byte(c))) {
				cand = groups[c]
				break
			}
		}
	}
	if len(cand) > 0 {
		return cand[0]
	}
	return -1
}

func (m *M) mapSet(mp *Map, i int, k, v Value) {
	if m.raceOn {
		m.raceMap(mp, true)
	}
	m.mapDirty(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	ks, conc := m.keyOf(mp.t.Key(), k)
	if conc {
		mp.idx[ks] = len(mp.ents)
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, mapEnt{k: k, v: v})
	mp.n++
}

func (m *M) mapDelete(mp *Map, i int) {
	if m.raceOn {
		m.raceMap(mp, true)
	}
	if i < 0 {
		return
	}
	m.mapDirty(mp)
	ks, conc := m.keyOf(mp.t.Key(), mp.ents[i].k)
	if conc {
		delete(mp.idx, ks)
	} else {
		mp.nsym--
	}
	mp.ents[i].dead = true
	mp.n--
}
