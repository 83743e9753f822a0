package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one register or one memory cell. Its meaning depends on its static type:
//
//	bool, integers, floats: n is the value (canonical for the type), or r is a *Term
//	string:   r is *Str (nil: "")
//	pointer:  r is *Obj and n the cell offset (nil: nil pointer)
//	slice:    r is *Slice (nil: nil slice)
//	map:      r is *Map;  chan: r is *Chan;  func: r is *Closure
//	interface: r is *Iface (nil: nil interface)
//	struct, array, tuple (registers only): r is *Agg (nil: zero value)
type Value struct {
	n uint64
	r any
}

type Str struct {
	s string
	b []*Term // if non-nil, the bytes (s unused)
}

var emptyStr = &Str{}

func (s *Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (m *M) strByte(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return m.ts.Byte(s.s[i])
}

func (m *M) strTerms(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = m.ts.Byte(s.s[i])
	}
	return r
}

// mkStr makes a string value of terms, concrete if all are constants.
func mkStr(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if t.op != OConst {
			return &Str{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.k))
	}
	return &Str{s: sb.String()}
}

func (s *Str) slice(lo, hi int) *Str {
	if lo == hi {
		return emptyStr
	}
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

func str(v Value) *Str {
	if v.r == nil {
		return emptyStr
	}
	return v.r.(*Str)
}

func strVal(s string) Value { return Value{r: &Str{s: s}} }

type Obj struct {
	cells  []Value
	epoch  int32
	id     int32
	what   string
	ext    any // engine-private payload
	sh     *shadow
	poison string
}

type Slice struct {
	obj      *Obj
	off      int // cell offset
	len, cap int // elements
	esz      int // cells per element
}

type Agg struct{ c []Value }

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn  *Func
	fv  []Value
	bi  string // builtin name
	nat func(m *M, args []Value) Value
}

type mapEnt struct {
	k, v Value
	dead bool
}

type Map struct {
	ents  []mapEnt
	idx   map[string]int // concrete key -> entry
	nsym  int            // live entries with a symbolic key
	n     int
	epoch int32
	id    int32
	t     *types.Map
	sh    *Obj // shadow for race detection
}

type chanMsg struct {
	v  Value
	vc []int32
}

type Chan struct {
	msgs   []chanMsg // append-only; [head:] are buffered
	head   int
	cap    int
	closed bool
	id     int32
	recvvc [][]int32 // clock of the k-th receive
	clvc   []int32
}

func (c *Chan) n() int { return len(c.msgs) - c.head }

// SymPtr is a pointer to base[idx] with a symbolic index; all cells hold constants.
type SymPtr struct {
	tbl int
	idx *Term
	k   kind
	obj *Obj
	off int
	n   int
}

// RType is an interned dynamic type.
type RType struct {
	tobj *Obj // what reflect.TypeOf gives for it
	t    types.Type
	id   int
	meth map[string]*Func
	impl map[types.Type]bool
}

type Layout struct {
	n     int
	kinds []types.Type // type of each cell
}

// Prog holds the SSA program and the compiled code of one worker.
type Prog struct {
	prog    *ssa.Program
	funcs   map[*ssa.Function]*Func
	rtypes  typeutil.Map
	layouts typeutil.Map
	sizes   types.Sizes
	globals map[*ssa.Global]*Obj
	models  map[string]*ssa.Function // qualified name -> model function
	runInit map[*ssa.Package]bool
	nextRT  int
	byPath  map[string]*ssa.Package
}

func (p *Prog) rtype(t types.Type) *RType {
	t = types.Unalias(t)
	if r := p.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	p.nextRT++
	r := &RType{t: t, id: p.nextRT, meth: map[string]*Func{}, impl: map[types.Type]bool{}}
	p.rtypes.Set(t, r)
	return r
}

// layout flattens a type to cells.
func (p *Prog) layout(t types.Type) *Layout {
	if l := p.layouts.At(t); l != nil {
		return l.(*Layout)
	}
	var l Layout
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := p.layout(u.Field(i).Type())
			l.kinds = append(l.kinds, f.kinds...)
		}
	case *types.Array:
		f := p.layout(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			l.kinds = append(l.kinds, f.kinds...)
		}
	default:
		l.kinds = []types.Type{t}
	}
	l.n = len(l.kinds)
	p.layouts.Set(t, &l)
	return &l
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (p *Prog) fieldOff(s *types.Struct, i int) int {
	o := 0
	for j := 0; j < i; j++ {
		o += p.layout(s.Field(j).Type()).n
	}
	return o
}

type kind struct {
	w      uint8
	signed bool
	float  bool
	isBool bool
	isStr  bool
}

// kindOf classifies scalar types; ok is false for non-basic types.
func kindOf(t types.Type) (kind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kind{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kind{w: 0, isBool: true}, true
	case types.Int, types.Int64, types.UntypedInt:
		return kind{w: 64, signed: true}, true
	case types.Int8:
		return kind{w: 8, signed: true}, true
	case types.Int16:
		return kind{w: 16, signed: true}, true
	case types.Int32, types.UntypedRune:
		return kind{w: 32, signed: true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return kind{w: 64}, true
	case types.Uint8:
		return kind{w: 8}, true
	case types.Uint16:
		return kind{w: 16}, true
	case types.Uint32:
		return kind{w: 32}, true
	case types.Float64, types.UntypedFloat:
		return kind{w: 64, float: true}, true
	case types.Float32:
		return kind{w: 32, float: true}, true
	case types.String, types.UntypedString:
		return kind{isStr: true}, true
	}
	return kind{}, false
}

// norm puts an integer into the canonical form of kind k.
func norm(v uint64, k kind) uint64 {
	if k.w == 64 || k.w == 0 {
		return v
	}
	if k.signed {
		return uint64(sx(v, k.w))
	}
	return v & mask(k.w)
}

// term converts a scalar Value of kind k to a term.
func (m *M) term(v Value, k kind) *Term {
	if v.r != nil {
		return v.r.(*Term)
	}
	if k.isBool {
		return m.ts.Bool(v.n != 0)
	}
	return m.ts.Const(k.w, v.n)
}

func (m *M) fromTerm(t *Term, k kind) Value {
	if t.op == OConst {
		if k.isBool {
			return Value{n: t.k}
		}
		return Value{n: norm(t.k, k)}
	}
	return Value{r: t}
}

func boolVal(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func (m *M) boolTerm(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{r: t}
}

func (v Value) concrete() bool {
	_, ok := v.r.(*Term)
	return !ok
}

// keyOf encodes a concrete map key; ok=false if it contains symbolic parts.
func (m *M) keyOf(t types.Type, v Value) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, _ := kindOf(t); k.isStr {
			s := str(v)
			if s.b != nil {
				return "", false
			}
			return s.s, true
		}
		if v.r != nil {
			if _, ok := v.r.(*Term); ok {
				return "", false
			}
		}
		return fmt.Sprintf("%d", v.n), true
	case *types.Pointer, *types.Chan:
		switch o := v.r.(type) {
		case nil:
			return "nil", true
		case *Obj:
			return fmt.Sprintf("%p+%d", o, v.n), true
		default:
			return fmt.Sprintf("%p", o), true
		}
	case *types.Interface:
		if v.r == nil {
			return "nil", true
		}
		i := v.r.(*Iface)
		s, ok := m.keyOf(i.t.t, i.v)
		return fmt.Sprintf("%d:%s", i.t.id, s), ok
	case *types.Struct, *types.Array:
		l := m.p.layout(u.(types.Type))
		var sb strings.Builder
		cs := aggCells(v, l.n)
		for i, kt := range l.kinds {
			s, ok := m.keyOf(kt, cs[i])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	}
	m.unsupported("map key type " + t.String())
	return "", false
}

func aggCells(v Value, n int) []Value {
	if v.r == nil {
		return make([]Value, n)
	}
	return v.r.(*Agg).c
}
