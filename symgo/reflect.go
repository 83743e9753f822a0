package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Natives of the model of encoding/json and text/template: a small reflection over pointers (any values holding *T).

const (
	rkNil = iota
	rkBool
	rkInt
	rkUint
	rkFloat
	rkString
	rkSlice
	rkArray
	rkPtr
	rkStruct
	rkMap
	rkIface
	rkFunc
	rkOther
)

func rkindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, ok := kindOf(t)
		switch {
		case !ok:
			return rkOther
		case k.isBool:
			return rkBool
		case k.isStr:
			return rkString
		case k.float:
			return rkFloat
		case k.signed:
			return rkInt
		}
		return rkUint
	case *types.Slice:
		return rkSlice
	case *types.Array:
		return rkArray
	case *types.Pointer:
		return rkPtr
	case *types.Struct:
		return rkStruct
	case *types.Map:
		return rkMap
	case *types.Interface:
		return rkIface
	case *types.Signature:
		return rkFunc
	default:
		_ = u
		return rkOther
	}
}

// ptrArg gives the pointed-to type, object and offset of an any holding a pointer.
func (m *M) ptrArg(v Value) (types.Type, *Obj, int) {
	i := v.r.(*Iface)
	p, ok := i.t.t.Underlying().(*types.Pointer)
	if !ok {
		m.unsupported("reflection on " + i.t.t.String())
	}
	o, ok := i.v.r.(*Obj)
	if !ok {
		m.unsupported("reflection on a nil or symbolic pointer to " + p.Elem().String())
	}
	return p.Elem(), o, int(i.v.n)
}

func (m *M) anyPtr(t types.Type, o *Obj, off int) Value {
	return Value{r: &Iface{m.p.rtype(types.NewPointer(t)), Value{r: o, n: uint64(off)}}}
}

// anyAt loads the value at a place as an any.
func (m *M) anyAt(t types.Type, o *Obj, off int) Value {
	if rkindOf(t) == rkIface {
		return o.cells[off]
	}
	n := m.p.layout(t).n
	if isAgg(t) {
		return Value{r: &Iface{m.p.rtype(t), Value{r: &Agg{append([]Value{}, o.cells[off:off+n]...)}}}}
	}
	return Value{r: &Iface{m.p.rtype(t), o.cells[off]}}
}

// put stores a value of type t.
func (m *M) put(t types.Type, o *Obj, off int, v Value) {
	n := m.p.layout(t).n
	if !isAgg(t) {
		m.write(o, off, v)
		return
	}
	for i, c := range aggCells(v, n) {
		m.write(o, off+i, c)
	}
}

func (m *M) slot(t types.Type) *Obj { return m.newObj(m.p.layout(t).n, "reflect") }

type jfield struct {
	name   string
	path   []int
	tagged bool
	opts   string
}

// jsonFields follows the rules of encoding/json for the fields of a struct.
func jsonFields(t types.Type) []jfield {
	type item struct {
		t    types.Type
		path []int
	}
	var all []jfield
	level := []item{{t, nil}}
	seen := map[string]bool{}
	for len(level) > 0 {
		var nextLevel []item
		for _, it := range level {
			key := it.t.String()
			if seen[key] {
				continue
			}
			seen[key] = true
			s := it.t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok && f.Embedded() {
					ft = p.Elem()
				}
				_, isStruct := ft.Underlying().(*types.Struct)
				if f.Embedded() {
					if !f.Exported() && !isStruct {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				tag := reflect.StructTag(s.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				path := append(append([]int{}, it.path...), i)
				if name != "" || !f.Embedded() || !isStruct {
					jf := jfield{name: name, path: path, tagged: name != "", opts: "," + opts + ","}
					if name == "" {
						jf.name = f.Name()
					}
					all = append(all, jf)
					continue
				}
				nextLevel = append(nextLevel, item{ft, path})
			}
		}
		level = nextLevel
	}
	byName := map[string][]jfield{}
	for _, f := range all {
		byName[f.name] = append(byName[f.name], f)
	}
	var out []jfield
	for _, fs := range byName {
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].path) != len(fs[j].path) {
				return len(fs[i].path) < len(fs[j].path)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) > 1 && len(fs[0].path) == len(fs[1].path) && fs[0].tagged == fs[1].tagged {
			continue
		}
		out = append(out, fs[0])
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].path, out[j].path
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

func init() {
	mm := modelsPkg + "."
	intKind := kind{w: 64, signed: true}
	rtypeOf := func(a Value) *RType { return a.r.(*Obj).cells[0].r.(*RType) }
	typeVal := func(m *M, t *RType) Value {
		if t.tobj == nil {
			t.tobj = m.newObj(1, "reflect.Type")
			t.tobj.cells[0] = Value{r: t}
		}
		rt := m.p.byPath["reflect"].Type("rtype").Type()
		return Value{r: &Iface{m.p.rtype(types.NewPointer(rt)), Value{r: t.tobj}}}
	}
	natives["reflect.TypeOf"] = func(m *M, a []Value) Value {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return Value{}
		}
		return typeVal(m, i.t)
	}
	natives["(*reflect.rtype).Elem"] = func(m *M, a []Value) Value {
		return typeVal(m, m.p.rtype(elemOf(rtypeOf(a[0]).t)))
	}
	natives["internal/reflectlite.TypeOf"] = natives["reflect.TypeOf"]
	natives["(*reflect.rtype).Comparable"] = func(m *M, a []Value) Value {
		return boolVal(types.Comparable(rtypeOf(a[0]).t))
	}
	natives["(*reflect.rtype).Kind"] = func(m *M, a []Value) Value {
		kinds := map[string]reflect.Kind{}
		for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
			kinds[k.String()] = k
		}
		t := rtypeOf(a[0]).t
		switch rkindOf(t) {
		case rkSlice:
			return intV(int(reflect.Slice))
		case rkArray:
			return intV(int(reflect.Array))
		case rkPtr:
			return intV(int(reflect.Pointer))
		case rkStruct:
			return intV(int(reflect.Struct))
		case rkMap:
			return intV(int(reflect.Map))
		case rkIface:
			return intV(int(reflect.Interface))
		case rkFunc:
			return intV(int(reflect.Func))
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			return intV(int(reflect.Chan))
		}
		switch t.Underlying().String() {
		case "rune":
			return intV(int(reflect.Int32))
		case "byte":
			return intV(int(reflect.Uint8))
		}
		k, ok := kinds[t.Underlying().String()]
		if !ok {
			m.unsupported("reflect kind of " + t.String())
		}
		return intV(int(k))
	}
	natives["(*reflect.rtype).String"] = func(m *M, a []Value) Value {
		return strVal(types.TypeString(rtypeOf(a[0]).t, func(p *types.Package) string { return p.Name() }))
	}
	natives["(*reflect.rtype).Name"] = func(m *M, a []Value) Value {
		switch t := types.Unalias(rtypeOf(a[0]).t).(type) {
		case *types.Named:
			return strVal(t.Obj().Name())
		case *types.Basic:
			return strVal(t.Name())
		}
		return strVal("")
	}
	for n, f := range map[string]natFn{
		"rSameType": func(m *M, a []Value) Value {
			return boolVal(a[0].r.(*Iface).t == a[1].r.(*Iface).t)
		},
		"rSamePlace": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			_, p, poff := m.ptrArg(a[1])
			x, y := o.cells[off], p.cells[poff]
			if x.r == nil || y.r == nil {
				return boolVal(x.r == nil && y.r == nil)
			}
			ox, ok1 := x.r.(*Obj)
			oy, ok2 := y.r.(*Obj)
			return boolVal(ok1 && ok2 && ox == oy && x.n == y.n)
		},
		"unsupported": func(m *M, a []Value) Value {
			m.unsupported(str(a[0]).s)
			return Value{}
		},
		"rExported": func(m *M, a []Value) Value {
			t, _, _ := m.ptrArg(a[0])
			return boolVal(t.Underlying().(*types.Struct).Field(int(m.intVal(a[1]))).Exported())
		},
		"rFieldName": func(m *M, a []Value) Value {
			t, _, _ := m.ptrArg(a[0])
			return strVal(t.Underlying().(*types.Struct).Field(int(m.intVal(a[1]))).Name())
		},
		"rIsByte": func(m *M, a []Value) Value {
			t, _, _ := m.ptrArg(a[0])
			b, ok := elemOf(t).Underlying().(*types.Basic)
			return boolVal(ok && b.Kind() == types.Uint8)
		},
		"rFloat": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			return o.cells[off]
		},
		"rUint": func(m *M, a []Value) Value {
			t, o, off := m.ptrArg(a[0])
			k, _ := kindOf(t)
			v := o.cells[off]
			if v.r != nil {
				return m.fromTerm(m.resize(v.r.(*Term), k, kind{w: 64}), kind{w: 64})
			}
			return v
		},
		"rNumField": func(m *M, a []Value) Value {
			t, _, _ := m.ptrArg(a[0])
			return intV(t.Underlying().(*types.Struct).NumFields())
		},
		"rKind": func(m *M, a []Value) Value {
			t, _, _ := m.ptrArg(a[0])
			return intV(rkindOf(t))
		},
		"rTypeName": func(m *M, a []Value) Value {
			t, _, _ := m.ptrArg(a[0])
			return strVal(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
		},
		"rJSONFields": func(m *M, a []Value) Value {
			t, _, _ := m.ptrArg(a[0])
			return intV(len(jsonFields(t)))
		},
		"rJSONField": func(m *M, a []Value) Value { // name, options, path
			t, _, _ := m.ptrArg(a[0])
			f := jsonFields(t)[m.intVal(a[1])]
			var path []byte
			for _, i := range f.path {
				path = append(path, byte(i))
			}
			return tuple(strVal(f.name), strVal(f.opts), strVal(string(path)))
		},
		"rField": func(m *M, a []Value) Value {
			t, o, off := m.ptrArg(a[0])
			s := t.Underlying().(*types.Struct)
			i := int(m.intVal(a[1]))
			return m.anyPtr(s.Field(i).Type(), o, off+m.p.fieldOff(s, i))
		},
		"rFieldNamed": func(m *M, a []Value) Value { // pointer to the field of that name or nil
			t, o, off := m.ptrArg(a[0])
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				return Value{}
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == str(a[1]).s && s.Field(i).Exported() {
					return m.anyPtr(s.Field(i).Type(), o, off+m.p.fieldOff(s, i))
				}
			}
			return Value{}
		},
		"rLen": func(m *M, a []Value) Value {
			t, o, off := m.ptrArg(a[0])
			switch u := t.Underlying().(type) {
			case *types.Array:
				return intV(int(u.Len()))
			case *types.Slice:
				if s, _ := o.cells[off].r.(*Slice); s != nil {
					return intV(s.len)
				}
			case *types.Map:
				if s, _ := o.cells[off].r.(*Map); s != nil {
					return intV(s.n)
				}
			case *types.Basic:
				return intV(str(o.cells[off]).len())
			}
			return Value{}
		},
		"rIndex": func(m *M, a []Value) Value {
			t, o, off := m.ptrArg(a[0])
			i := int(m.intVal(a[1]))
			switch u := t.Underlying().(type) {
			case *types.Array:
				return m.anyPtr(u.Elem(), o, off+i*m.p.layout(u.Elem()).n)
			case *types.Slice:
				s := o.cells[off].r.(*Slice)
				return m.anyPtr(u.Elem(), s.obj, s.off+i*s.esz)
			}
			m.unsupported("index of " + t.String())
			return Value{}
		},
		"rNil": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			return boolVal(o.cells[off].r == nil)
		},
		"rLoad": func(m *M, a []Value) Value {
			t, o, off := m.ptrArg(a[0])
			return m.anyAt(t, o, off)
		},
		"rBox": func(m *M, a []Value) Value {
			if a[0].r == nil {
				return Value{}
			}
			i := a[0].r.(*Iface)
			o := m.slot(i.t.t)
			m.put(i.t.t, o, 0, i.v)
			return m.anyPtr(i.t.t, o, 0)
		},
		"rNew": func(m *M, a []Value) Value { // p is **E
			t, o, off := m.ptrArg(a[0])
			e := elemOf(t)
			n := m.slot(e)
			m.write(o, off, Value{r: n})
			return m.anyPtr(e, n, 0)
		},
		"rZero": func(m *M, a []Value) Value {
			t, o, off := m.ptrArg(a[0])
			for i := 0; i < m.p.layout(t).n; i++ {
				m.write(o, off+i, Value{})
			}
			return Value{}
		},
		"rGrow": func(m *M, a []Value) Value { // p is *[]E
			t, o, off := m.ptrArg(a[0])
			e := t.Underlying().(*types.Slice).Elem()
			esz := m.p.layout(e).n
			s, _ := o.cells[off].r.(*Slice)
			if s == nil {
				s = &Slice{obj: m.newObj(0, "reflect"), esz: esz}
			}
			n := &Slice{obj: s.obj, off: s.off, len: s.len + 1, cap: s.cap, esz: esz}
			if n.len > s.cap {
				n.cap = 2*s.len + 4
				n.off = 0
				n.obj = m.newObj(n.cap*esz, "reflect")
				copy(n.obj.cells, s.obj.cells[s.off:s.off+s.len*esz])
			} else {
				for i := 0; i < esz; i++ {
					m.write(n.obj, n.off+s.len*esz+i, Value{})
				}
			}
			m.write(o, off, Value{r: n})
			return m.anyPtr(e, n.obj, n.off+(n.len-1)*esz)
		},
		"rMake": func(m *M, a []Value) Value { // *p becomes empty and not nil
			t, o, off := m.ptrArg(a[0])
			switch u := t.Underlying().(type) {
			case *types.Slice:
				m.write(o, off, Value{r: &Slice{obj: m.newObj(0, "reflect"), esz: m.p.layout(u.Elem()).n}})
			case *types.Map:
				m.write(o, off, Value{r: m.newMap(u)})
			}
			return Value{}
		},
		"rSetStr": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			m.write(o, off, a[1])
			return Value{}
		},
		"rSetBool": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			m.write(o, off, a[1])
			return Value{}
		},
		"rSetInt": func(m *M, a []Value) Value { // false if it does not fit
			t, o, off := m.ptrArg(a[0])
			k, _ := kindOf(t)
			v := uint64(m.intVal(a[1]))
			if norm(v, k) != v || !k.signed && int64(v) < 0 {
				return Value{}
			}
			m.write(o, off, Value{n: norm(v, k)})
			return Value{n: 1}
		},
		"rSetAny": func(m *M, a []Value) Value { // p points at an interface; false if the value does not implement it
			t, o, off := m.ptrArg(a[0])
			if a[1].r != nil {
				if it := t.Underlying().(*types.Interface); !m.implements(a[1].r.(*Iface).t, it, t) {
					return Value{}
				}
			}
			m.write(o, off, a[1])
			return Value{n: 1}
		},
		"rStr": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			return o.cells[off]
		},
		"rBool": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			return o.cells[off]
		},
		"rInt": func(m *M, a []Value) Value {
			t, o, off := m.ptrArg(a[0])
			k, _ := kindOf(t)
			v := o.cells[off]
			if v.r != nil {
				return m.fromTerm(m.resize(v.r.(*Term), k, intKind), intKind)
			}
			return v
		},
		"rMapLen": func(m *M, a []Value) Value {
			_, o, off := m.ptrArg(a[0])
			mp, _ := o.cells[off].r.(*Map)
			if mp == nil {
				return Value{}
			}
			return intV(mp.n)
		},
		"rMapAt": func(m *M, a []Value) Value { // the i-th entry: pointers to copies of key and value
			t, o, off := m.ptrArg(a[0])
			u := t.Underlying().(*types.Map)
			mp := o.cells[off].r.(*Map)
			i := int(m.intVal(a[1]))
			for _, e := range mp.ents {
				if e.dead {
					continue
				}
				if i > 0 {
					i--
					continue
				}
				ko, vo := m.slot(u.Key()), m.slot(u.Elem())
				m.put(u.Key(), ko, 0, e.k)
				m.put(u.Elem(), vo, 0, e.v)
				return tuple(m.anyPtr(u.Key(), ko, 0), m.anyPtr(u.Elem(), vo, 0))
			}
			panic("rMapAt")
		},
		"rMapNew": func(m *M, a []Value) Value { // pointers to zero values for key and value
			t, _, _ := m.ptrArg(a[0])
			u := t.Underlying().(*types.Map)
			return tuple(m.anyPtr(u.Key(), m.slot(u.Key()), 0), m.anyPtr(u.Elem(), m.slot(u.Elem()), 0))
		},
		"rMapSet": func(m *M, a []Value) Value { // p *map, key *K, value *V
			t, o, off := m.ptrArg(a[0])
			u := t.Underlying().(*types.Map)
			mp := o.cells[off].r.(*Map)
			get := func(v Value) Value {
				et, eo, eoff := m.ptrArg(v)
				if isAgg(et) {
					return Value{r: &Agg{append([]Value{}, eo.cells[eoff:eoff+m.p.layout(et).n]...)}}
				}
				return eo.cells[eoff]
			}
			k := get(a[1])
			_ = u
			m.mapSet(mp, m.mapFind(mp, k), k, get(a[2]))
			return Value{}
		},
	} {
		natives[mm+n] = f
	}
}
