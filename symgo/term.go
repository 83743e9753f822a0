package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator. Terms are fixed-width bit-vectors (w = 1..64) or booleans (w = 0).
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	ONot
	ONeg
	OZExt
	OSExt
	OExtract // low bits: extract [w-1:0]
	OTable   // tables[k] indexed by a
	OIte
	// booleans
	OInSet // single small variable v1 in set
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

// Bits is a set of byte values.
type Bits [4]uint64

func (s *Bits) has(v uint64) bool { return s[v>>6]>>(v&63)&1 != 0 }
func (s *Bits) add(v uint64)      { s[v>>6] |= 1 << (v & 63) }
func (s Bits) and(o Bits) Bits    { return Bits{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]} }
func (s Bits) or(o Bits) Bits     { return Bits{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]} }
func (s Bits) andNot(o Bits) Bits {
	return Bits{s[0] &^ o[0], s[1] &^ o[1], s[2] &^ o[2], s[3] &^ o[3]}
}
func (s Bits) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Bits) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Bits) min() uint64 {
	for i, x := range s {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

func fullBits(w uint8) Bits {
	var s Bits
	for v := uint64(0); v < 1<<w; v++ {
		s.add(v)
	}
	return s
}

var fullByW [9]Bits

func init() {
	for w := uint8(1); w <= 8; w++ {
		fullByW[w] = fullBits(w)
	}
}

type Term struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	id      int
	v1      int32 // the only variable of the term if it is small (<= 8 bits); -1: no variables; -2: otherwise
	vars    []int32
	vals    []uint64 // for v1 >= 0, w > 0: value for each value of the variable
	set     *Bits    // for OInSet
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int
}

type setKey struct {
	v   int32
	set Bits
}

type VarInfo struct {
	id   int32
	w    uint8
	t    *Term
	name string
}

// Terms is the hash-consed term store of one worker.
type Terms struct {
	tab    map[termKey]*Term
	sets   map[setKey]*Term
	n      int
	True   *Term
	False  *Term
	vars   []*VarInfo
	byKey  map[string]*VarInfo
	tables [][]uint64
	tblKey map[string]int
	bytes  [256]*Term
}

func newTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}, sets: map[setKey]*Term{}, byKey: map[string]*VarInfo{}, tblKey: map[string]int{}}
	ts.True = ts.mk(Term{op: OConst, w: 0, k: 1, v1: -1})
	ts.False = ts.mk(Term{op: OConst, w: 0, k: 0, v1: -1})
	for i := range ts.bytes {
		ts.bytes[i] = ts.Const(8, uint64(i))
	}
	return ts
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (ts *Terms) mk(t Term) *Term {
	k := termKey{t.op, t.w, t.k, tid(t.a), tid(t.b), tid(t.c)}
	if r, ok := ts.tab[k]; ok {
		return r
	}
	ts.n++
	t.id = ts.n
	r := &t
	ts.tab[k] = r
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (ts *Terms) Const(w uint8, v uint64) *Term {
	return ts.mk(Term{op: OConst, w: w, k: v & mask(w), v1: -1})
}

func (ts *Terms) Byte(v byte) *Term { return ts.bytes[v] }

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

// Var returns the variable with this key, creating it on first use.
func (ts *Terms) Var(key string, w uint8) *Term {
	if v, ok := ts.byKey[key]; ok {
		return v.t
	}
	vi := &VarInfo{id: int32(len(ts.vars)), w: w, name: key}
	t := Term{op: OVar, w: w, k: uint64(vi.id), vars: []int32{vi.id}, v1: -2}
	if w <= 8 {
		t.v1 = vi.id
		t.vals = make([]uint64, 1<<w)
		for i := range t.vals {
			t.vals[i] = uint64(i)
		}
	}
	vi.t = ts.mk(t)
	ts.vars = append(ts.vars, vi)
	ts.byKey[key] = vi
	return vi.t
}

func (ts *Terms) Table(vals []uint64) int {
	var sb strings.Builder
	for _, v := range vals {
		fmt.Fprintf(&sb, "%x,", v)
	}
	if i, ok := ts.tblKey[sb.String()]; ok {
		return i
	}
	ts.tables = append(ts.tables, vals)
	ts.tblKey[sb.String()] = len(ts.tables) - 1
	return len(ts.tables) - 1
}

func evalOp(op Op, w uint8, a, b uint64, aw uint8) uint64 {
	switch op {
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return mask(w)
		}
		if sb == -1 {
			return uint64(-sa) & mask(w)
		}
		return uint64(sa/sb) & mask(w)
	case OSRem:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & mask(w)
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & mask(w)
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		sa := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & mask(w)
	case ONot:
		return ^a & mask(w)
	case ONeg:
		return -a & mask(w)
	case OZExt:
		return a
	case OSExt:
		return uint64(sx(a, aw)) & mask(w)
	case OExtract:
		return a & mask(w)
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (ts *Terms) termVars(a, b, c *Term) ([]int32, int32) {
	var v []int32
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			v = mergeVars(v, x.vars)
		}
	}
	switch len(v) {
	case 0:
		return nil, -1
	case 1:
		if ts.vars[v[0]].w <= 8 {
			return v, v[0]
		}
	}
	return v, -2
}

// valAt gives the value of a unary (or constant) term when its variable has value x.
func (t *Term) valAt(x int) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.set != nil {
		return b2u(t.set.has(uint64(x)))
	}
	return t.vals[x]
}

// InSet builds the literal "small variable v is in set".
func (ts *Terms) InSet(v int32, s Bits) *Term {
	w := ts.vars[v].w
	s = s.and(fullByW[w])
	if s.empty() {
		return ts.False
	}
	if s == fullByW[w] {
		return ts.True
	}
	k := setKey{v, s}
	if t, ok := ts.sets[k]; ok {
		return t
	}
	ts.n++
	t := &Term{op: OInSet, w: 0, id: ts.n, v1: v, vars: ts.vars[v].t.vars, set: &s}
	ts.sets[k] = t
	return t
}

// bin builds a binary (or comparison) term. Result width: w (0 for comparisons).
func (ts *Terms) bin(op Op, w uint8, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		r := evalOp(op, w, a.k, b.k, a.w)
		if w == 0 {
			return ts.Bool(r != 0)
		}
		return ts.Const(w, r)
	}
	// a few identities
	switch op {
	case OAdd, OOr, OXor:
		if a.op == OConst && a.k == 0 {
			return b
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OSub, OShl, OLShr, OAShr:
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OEq:
		if a == b {
			return ts.True
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && a.op == OZExt {
			if b.k > mask(a.a.w) {
				return ts.False
			}
			return ts.bin(OEq, 0, a.a, ts.Const(a.a.w, b.k))
		}
		if a.id > b.id && b.op != OConst {
			a, b = b, a
		}
	case OUlt, OSlt:
		if a == b {
			return ts.False
		}
	case OUle, OSle:
		if a == b {
			return ts.True
		}
	}
	vars, v1 := ts.termVars(a, b, nil)
	if v1 >= 0 {
		n := 1 << ts.vars[v1].w
		if w == 0 {
			var s Bits
			for i := 0; i < n; i++ {
				if evalOp(op, 0, a.valAt(i), b.valAt(i), a.w) != 0 {
					s.add(uint64(i))
				}
			}
			return ts.InSet(v1, s)
		}
		k := termKey{op, w, 0, tid(a), tid(b), -1}
		if r, ok := ts.tab[k]; ok {
			return r
		}
		vals := make([]uint64, n)
		for i := range vals {
			vals[i] = evalOp(op, w, a.valAt(i), b.valAt(i), a.w)
		}
		return ts.unary(Term{op: op, w: w, a: a, b: b, v1: v1, vars: vars, vals: vals})
	}
	return ts.mk(Term{op: op, w: w, a: a, b: b, v1: v1, vars: vars})
}

// unary finishes a term of one small variable, folding constants.
func (ts *Terms) unary(t Term) *Term {
	same := true
	for _, v := range t.vals[1:] {
		if v != t.vals[0] {
			same = false
			break
		}
	}
	if same {
		return ts.Const(t.w, t.vals[0])
	}
	return ts.mk(t)
}

func (ts *Terms) un(op Op, w uint8, a *Term) *Term {
	if a.op == OConst {
		return ts.Const(w, evalOp(op, w, a.k, 0, a.w))
	}
	if (op == OZExt || op == OSExt || op == OExtract) && a.w == w {
		return a
	}
	if op == OExtract && (a.op == OZExt || a.op == OSExt) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return ts.un(OExtract, w, a.a)
		}
		return ts.un(a.op, w, a.a)
	}
	if op == OZExt && a.op == OZExt {
		return ts.un(OZExt, w, a.a)
	}
	t := Term{op: op, w: w, a: a, v1: a.v1, vars: a.vars}
	if a.v1 >= 0 {
		k := termKey{op, w, 0, a.id, -1, -1}
		if r, ok := ts.tab[k]; ok {
			return r
		}
		n := 1 << ts.vars[a.v1].w
		t.vals = make([]uint64, n)
		for i := range t.vals {
			t.vals[i] = evalOp(op, w, a.valAt(i), 0, a.w)
		}
		return ts.unary(t)
	}
	return ts.mk(t)
}

// TableAt is tables[ti][idx]; idx must be known to be in range.
func (ts *Terms) TableAt(ti int, w uint8, idx *Term) *Term {
	tbl := ts.tables[ti]
	if idx.op == OConst {
		return ts.Const(w, tbl[idx.k])
	}
	t := Term{op: OTable, w: w, k: uint64(ti), a: idx, v1: idx.v1, vars: idx.vars}
	if idx.v1 >= 0 {
		n := 1 << ts.vars[idx.v1].w
		t.vals = make([]uint64, n)
		for i := range t.vals {
			if x := idx.valAt(i); x < uint64(len(tbl)) {
				t.vals[i] = tbl[x]
			}
		}
		return ts.unary(t)
	}
	return ts.mk(t)
}

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ts.Bool(a.k == 0)
	case OInSet:
		return ts.InSet(a.v1, fullByW[ts.vars[a.v1].w].andNot(*a.set))
	case OBNot:
		return a.a
	}
	return ts.mk(Term{op: OBNot, w: 0, a: a, v1: -2, vars: a.vars})
}

func (ts *Terms) And(a, b *Term) *Term {
	if a == ts.False || b == ts.False {
		return ts.False
	}
	if a == ts.True || a == b {
		return b
	}
	if b == ts.True {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.v1 == b.v1 {
		return ts.InSet(a.v1, a.set.and(*b.set))
	}
	if ts.Not(a) == b {
		return ts.False
	}
	vars, _ := ts.termVars(a, b, nil)
	return ts.mk(Term{op: OBAnd, w: 0, a: a, b: b, v1: -2, vars: vars})
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a == ts.True || b == ts.True {
		return ts.True
	}
	if a == ts.False || a == b {
		return b
	}
	if b == ts.False {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.v1 == b.v1 {
		return ts.InSet(a.v1, a.set.or(*b.set))
	}
	if ts.Not(a) == b {
		return ts.True
	}
	vars, _ := ts.termVars(a, b, nil)
	return ts.mk(Term{op: OBOr, w: 0, a: a, b: b, v1: -2, vars: vars})
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	vars, v1 := ts.termVars(c, a, b)
	t := Term{op: OIte, w: a.w, a: c, b: a, c: b, v1: v1, vars: vars}
	if v1 >= 0 {
		n := 1 << ts.vars[v1].w
		t.vals = make([]uint64, n)
		for i := range t.vals {
			if c.valAt(i) != 0 {
				t.vals[i] = a.valAt(i)
			} else {
				t.vals[i] = b.valAt(i)
			}
		}
		return ts.unary(t)
	}
	return ts.mk(t)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a.w == 0 {
		return ts.Or(ts.And(a, b), ts.And(ts.Not(a), ts.Not(b)))
	}
	return ts.bin(OEq, 0, a, b)
}

// eval computes a term under a full assignment of its variables.
func (ts *Terms) eval(t *Term, model []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return model[t.k]
	}
	if t.v1 >= 0 {
		return t.valAt(int(model[t.v1]))
	}
	switch t.op {
	case OTable:
		x := ts.eval(t.a, model)
		tbl := ts.tables[t.k]
		if x < uint64(len(tbl)) {
			return tbl[x]
		}
		return 0
	case OIte:
		if ts.eval(t.a, model) != 0 {
			return ts.eval(t.b, model)
		}
		return ts.eval(t.c, model)
	case OBAnd:
		return b2u(ts.eval(t.a, model) != 0 && ts.eval(t.b, model) != 0)
	case OBOr:
		return b2u(ts.eval(t.a, model) != 0 || ts.eval(t.b, model) != 0)
	case OBNot:
		return b2u(ts.eval(t.a, model) == 0)
	}
	a := ts.eval(t.a, model)
	var b uint64
	if t.b != nil {
		b = ts.eval(t.b, model)
	}
	return evalOp(t.op, t.w, a, b, t.a.w)
}

var smtName = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONot: "bvnot", ONeg: "bvneg",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not",
}

func smtConst(w uint8, v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func smtSet(v string, w uint8, s Bits) string {
	n := 1 << w
	neg := false
	if s.count()*2 > n {
		neg = true
		s = fullByW[w].andNot(s)
	}
	var parts []string
	for i := 0; i < n; i++ {
		if !s.has(uint64(i)) {
			continue
		}
		j := i
		for j+1 < n && s.has(uint64(j+1)) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s %s)", v, smtConst(w, uint64(i))))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule %s %s) (bvule %s %s))", smtConst(w, uint64(i)), v, v, smtConst(w, uint64(j))))
		}
		i = j
	}
	r := "false"
	if len(parts) == 1 {
		r = parts[0]
	} else if len(parts) > 1 {
		r = "(or " + strings.Join(parts, " ") + ")"
	}
	if neg {
		r = "(not " + r + ")"
	}
	return r
}

// smtTable prints tbl[idx] as a chain of interval tests.
func smtTable(tbl []uint64, w uint8, idx string, iw uint8) string {
	type run struct{ lo, hi, v uint64 }
	var runs []run
	cnt := map[uint64]int{}
	for i, v := range tbl {
		if len(runs) > 0 && runs[len(runs)-1].v == v {
			runs[len(runs)-1].hi = uint64(i)
		} else {
			runs = append(runs, run{uint64(i), uint64(i), v})
		}
	}
	for _, r := range runs {
		cnt[r.v]++
	}
	var def uint64
	best := -1
	var ks []uint64
	for v := range cnt {
		ks = append(ks, v)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, v := range ks {
		if cnt[v] > best {
			best, def = cnt[v], v
		}
	}
	out := smtConst(w, def)
	for _, r := range runs {
		if r.v == def {
			continue
		}
		if r.lo > mask(iw) {
			continue
		}
		if r.lo == r.hi {
			out = fmt.Sprintf("(ite (= %s %s) %s %s)", idx, smtConst(iw, r.lo), smtConst(w, r.v), out)
		} else {
			hi := r.hi
			if hi > mask(iw) {
				hi = mask(iw)
			}
			out = fmt.Sprintf("(ite (and (bvule %s %s) (bvule %s %s)) %s %s)", smtConst(iw, r.lo), idx, idx, smtConst(iw, hi), smtConst(w, r.v), out)
		}
	}
	return out
}
