package models

import (
	"errors"
	"io"
	"strconv"
	"text/template"
	"text/template/parse"
)

// A model of text/template: templates are parsed by the real text/template/parse and executed here on top of the small
// reflection of the JSON model. It covers fields, variables, range, if, else, with, literals, comparisons, and, or, not, len,
// print, index and registered functions over strings and lists of strings; anything else panics.

type tmpl struct {
	t     *template.Template
	name  string
	funcs template.FuncMap
	trees map[string]*parse.Tree
}

var tmpls []*tmpl

func tmplOf(t *template.Template) *tmpl {
	for _, x := range tmpls {
		if x.t == t {
			return x
		}
	}
	panic("models: unknown template")
}

func TextTemplateNew(name string) *template.Template {
	t := &template.Template{}
	tmpls = append(tmpls, &tmpl{t: t, name: name, funcs: template.FuncMap{}})
	return t
}

func TextTemplateFuncs(t *template.Template, fm template.FuncMap) *template.Template {
	x := tmplOf(t)
	for k, v := range fm {
		x.funcs[k] = v
	}
	return t
}

func tmplBuiltins() map[string]any {
	return map[string]any{"and": 1, "or": 1, "not": 1, "len": 1, "eq": 1, "ne": 1, "print": 1, "index": 1, "lt": 1, "le": 1, "gt": 1, "ge": 1, "html": 1, "js": 1, "printf": 1, "println": 1, "slice": 1, "urlquery": 1, "call": 1}
}

func TextTemplateParse(t *template.Template, text string) (*template.Template, error) {
	x := tmplOf(t)
	trees, err := parse.Parse(x.name, text, "", "", x.funcs, tmplBuiltins())
	if err != nil {
		return nil, err
	}
	x.trees = trees
	t.Tree = trees[x.name]
	return t, nil
}

func TextTemplateMust(t *template.Template, err error) *template.Template {
	if err != nil {
		panic(err)
	}
	return t
}

// A value is an any holding a pointer to it, or nil.
type tvar struct {
	name string
	p    any
}

type texec struct {
	x    *tmpl
	w    io.Writer
	vars []tvar
}

type terr struct{ err error }

type tbreak struct{}
type tcontinue struct{}

func TemplateExecute(t *template.Template, w io.Writer, data any) (err error) {
	e := &texec{x: tmplOf(t), w: w}
	dot := rBox(data)
	e.vars = []tvar{{"$", dot}}
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(terr)
			if !ok {
				panic(r)
			}
			err = te.err
		}
	}()
	if t.Tree == nil {
		return errors.New("template: incomplete or empty template")
	}
	e.walk(dot, t.Tree.Root)
	return nil
}

func (e *texec) out(s string) {
	if _, err := io.WriteString(e.w, s); err != nil {
		panic(terr{err})
	}
}

func tcant(what string) { panic("models: text/template: " + what + " is not modelled") }

// deref follows interfaces and pointers.
func deref(p any) any {
	for p != nil {
		switch rKind(p) {
		case rkIface:
			x := rLoad(p)
			if x == nil {
				return nil
			}
			p = rBox(x)
			continue
		case rkPtr:
			if rNil(p) {
				return nil
			}
			p = rLoad(p)
			continue
		}
		return p
	}
	return nil
}

func ttruth(p any) bool {
	p = deref(p)
	if p == nil {
		return false
	}
	switch rKind(p) {
	case rkBool:
		return rBool(p)
	case rkInt, rkUint:
		return rInt(p) != 0
	case rkString:
		return len(rStr(p)) > 0
	case rkSlice, rkArray:
		return rLen(p) > 0
	case rkMap:
		return rMapLen(p) > 0
	case rkStruct:
		return true
	}
	tcant("truth of this kind")
	return false
}

func (e *texec) walk(dot any, n parse.Node) {
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, k := range n.Nodes {
			e.walk(dot, k)
		}
	case *parse.TextNode:
		e.out(string(n.Text))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := e.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			e.out(tshow(v))
		}
	case *parse.IfNode:
		mark := len(e.vars)
		if ttruth(e.pipe(dot, n.Pipe)) {
			e.walk(dot, n.List)
		} else if n.ElseList != nil {
			e.walk(dot, n.ElseList)
		}
		e.vars = e.vars[:mark]
	case *parse.WithNode:
		mark := len(e.vars)
		if v := e.pipe(dot, n.Pipe); ttruth(v) {
			e.walk(v, n.List)
		} else if n.ElseList != nil {
			e.walk(dot, n.ElseList)
		}
		e.vars = e.vars[:mark]
	case *parse.RangeNode:
		e.rang(dot, n)
	case *parse.BreakNode:
		panic(tbreak{})
	case *parse.ContinueNode:
		panic(tcontinue{})
	case *parse.TemplateNode:
		tree := e.x.trees[n.Name]
		if tree == nil {
			panic(terr{errors.New("template: " + n.Name + " not defined")})
		}
		var d any
		if n.Pipe != nil {
			d = e.pipe(dot, n.Pipe)
		}
		save := e.vars
		e.vars = []tvar{{"$", d}}
		e.walk(d, tree.Root)
		e.vars = save
	default:
		tcant(n.String())
	}
}

func (e *texec) rang(dot any, n *parse.RangeNode) {
	mark := len(e.vars)
	decl := n.Pipe.Decl
	v := deref(e.value(dot, n.Pipe))
	if n.Pipe.IsAssign {
		tcant("assignment by range")
	}
	body := func(k, x any) {
		m2 := len(e.vars)
		switch len(decl) {
		case 1:
			e.vars = append(e.vars, tvar{decl[0].Ident[0], x})
		case 2:
			e.vars = append(e.vars, tvar{decl[0].Ident[0], k}, tvar{decl[1].Ident[0], x})
		}
		defer func() {
			e.vars = e.vars[:m2]
			if r := recover(); r != nil {
				if _, ok := r.(tcontinue); !ok {
					panic(r)
				}
			}
		}()
		e.walk(x, n.List)
	}
	defer func() {
		e.vars = e.vars[:mark]
		if r := recover(); r != nil {
			if _, ok := r.(tbreak); !ok {
				panic(r)
			}
		}
	}()
	any1 := false
	if v != nil {
		switch rKind(v) {
		case rkSlice, rkArray:
			for i := 0; i < rLen(v); i++ {
				any1 = true
				k := i
				body(&k, rIndex(v, i))
			}
		case rkMap:
			c := rMapLen(v)
			ks := make([]any, 0, c)
			vs := make([]any, 0, c)
			for i := 0; i < c; i++ {
				k, x := rMapAt(v, i)
				if rKind(k) != rkString {
					tcant("range over this map")
				}
				j := len(ks)
				ks, vs = append(ks, nil), append(vs, nil)
				for j > 0 && rStr(k) < rStr(ks[j-1]) {
					ks[j], vs[j] = ks[j-1], vs[j-1]
					j--
				}
				ks[j], vs[j] = k, x
			}
			for i := range ks {
				any1 = true
				body(ks[i], vs[i])
			}
		default:
			tcant("range over this kind")
		}
	}
	if !any1 && n.ElseList != nil {
		e.walk(dot, n.ElseList)
	}
}

// pipe evaluates a pipeline and sets its variables.
func (e *texec) pipe(dot any, p *parse.PipeNode) any {
	v := e.value(dot, p)
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(e.vars) - 1; i >= 0; i-- {
				if e.vars[i].name == d.Ident[0] {
					e.vars[i].p = v
					break
				}
			}
			continue
		}
		e.vars = append(e.vars, tvar{d.Ident[0], v})
	}
	return v
}

func (e *texec) value(dot any, p *parse.PipeNode) any {
	var v any
	for i, c := range p.Cmds {
		v = e.command(dot, c, v, i > 0)
	}
	return v
}

func (e *texec) command(dot any, c *parse.CommandNode, last any, piped bool) any {
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		if id.Ident == "and" || id.Ident == "or" {
			var v any
			for _, a := range c.Args[1:] {
				if v = e.arg(dot, a); ttruth(v) == (id.Ident == "or") {
					return v
				}
			}
			if piped {
				return last
			}
			return v
		}
		var args []any
		for _, a := range c.Args[1:] {
			args = append(args, e.arg(dot, a))
		}
		if piped {
			args = append(args, last)
		}
		return e.call(id.Ident, args)
	}
	if len(c.Args) > 1 || piped {
		tcant("a method call")
	}
	return e.arg(dot, c.Args[0])
}

func (e *texec) arg(dot any, n parse.Node) any {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return nil
	case *parse.FieldNode:
		return tfield(dot, n.Ident)
	case *parse.ChainNode:
		return tfield(e.arg(dot, n.Node), n.Field)
	case *parse.VariableNode:
		for i := len(e.vars) - 1; i >= 0; i-- {
			if e.vars[i].name == n.Ident[0] {
				return tfield(e.vars[i].p, n.Ident[1:])
			}
		}
		panic(terr{errors.New("template: undefined variable")})
	case *parse.PipeNode:
		return e.pipe(dot, n)
	case *parse.IdentifierNode:
		return e.call(n.Ident, nil)
	case *parse.StringNode:
		s := n.Text
		return &s
	case *parse.BoolNode:
		b := n.True
		return &b
	case *parse.NumberNode:
		if !n.IsInt {
			tcant("this number")
		}
		i := int(n.Int64)
		return &i
	}
	tcant(n.String())
	return nil
}

func tfield(p any, names []string) any {
	for _, f := range names {
		p = deref(p)
		if p == nil {
			panic(terr{errors.New("template: nil data; no entry for key " + strconv.Quote(f))})
		}
		if rKind(p) == rkMap {
			var found any
			for i := 0; i < rMapLen(p); i++ {
				if k, v := rMapAt(p, i); rKind(k) == rkString && rStr(k) == f {
					found = v
				}
			}
			if found == nil {
				_, found = rMapNew(p)
			}
			p = found
			continue
		}
		q := rFieldNamed(p, f)
		if q == nil {
			panic(terr{errors.New("template: can't evaluate field " + f)})
		}
		p = q
	}
	return p
}

func tstr(p any) string {
	p = deref(p)
	if p == nil || rKind(p) != rkString {
		panic(terr{errors.New("template: wrong type for value; expected string")})
	}
	return rStr(p)
}

func tstrs(p any) []string {
	p = deref(p)
	if p == nil {
		return nil
	}
	if rKind(p) != rkSlice {
		panic(terr{errors.New("template: wrong type for value; expected []string")})
	}
	if rNil(p) {
		return nil
	}
	r := make([]string, 0, rLen(p))
	for i := 0; i < rLen(p); i++ {
		r = append(r, tstr(rIndex(p, i)))
	}
	return r
}

func tcompare(a, b any) int {
	a, b = deref(a), deref(b)
	if a == nil || b == nil || rKind(a) != rKind(b) {
		panic(terr{errors.New("template: incompatible types for comparison")})
	}
	switch rKind(a) {
	case rkString:
		x, y := rStr(a), rStr(b)
		switch {
		case x == y:
			return 0
		case x < y:
			return -1
		}
		return 1
	case rkInt:
		x, y := rInt(a), rInt(b)
		switch {
		case x == y:
			return 0
		case x < y:
			return -1
		}
		return 1
	case rkBool:
		if rBool(a) == rBool(b) {
			return 0
		}
		return 1
	}
	tcant("comparison of this kind")
	return 0
}

func (e *texec) call(name string, a []any) any {
	f, ok := e.x.funcs[name]
	if !ok {
		return tbuiltin(name, a)
	}
	need := func(n int) {
		if len(a) != n {
			panic(terr{errors.New("template: wrong number of args for " + name)})
		}
	}
	var s string
	switch f := f.(type) {
	case func([]string, string) string:
		need(2)
		s = f(tstrs(a[0]), tstr(a[1]))
	case func([]string) string:
		need(1)
		s = f(tstrs(a[0]))
	case func(string) string:
		need(1)
		s = f(tstr(a[0]))
	case func(string, string) string:
		need(2)
		s = f(tstr(a[0]), tstr(a[1]))
	case func(string, string) bool:
		need(2)
		b := f(tstr(a[0]), tstr(a[1]))
		return &b
	case func(string, string) []string:
		need(2)
		l := f(tstr(a[0]), tstr(a[1]))
		return &l
	case func(string, string, string) string:
		need(3)
		s = f(tstr(a[0]), tstr(a[1]), tstr(a[2]))
	default:
		tcant("function " + name)
	}
	return &s
}

func tbuiltin(name string, a []any) any {
	switch name {
	case "not":
		b := !ttruth(a[0])
		return &b
	case "len":
		p := deref(a[0])
		n := 0
		if rKind(p) == rkMap {
			n = rMapLen(p)
		} else {
			n = rLen(p)
		}
		return &n
	case "eq":
		b := false
		for _, x := range a[1:] {
			b = b || tcompare(a[0], x) == 0
		}
		return &b
	case "ne":
		b := tcompare(a[0], a[1]) != 0
		return &b
	case "lt":
		b := tcompare(a[0], a[1]) < 0
		return &b
	case "le":
		b := tcompare(a[0], a[1]) <= 0
		return &b
	case "gt":
		b := tcompare(a[0], a[1]) > 0
		return &b
	case "ge":
		b := tcompare(a[0], a[1]) >= 0
		return &b
	case "index":
		p := deref(a[0])
		for _, i := range a[1:] {
			if rKind(p) == rkMap {
				p = tfield(p, []string{tstr(i)})
				continue
			}
			n := int(rInt(deref(i)))
			if n < 0 || n >= rLen(p) {
				panic(terr{errors.New("template: index out of range")})
			}
			p = deref(rIndex(p, n))
		}
		return p
	case "print":
		s := ""
		for _, x := range a {
			s += tshow(x)
		}
		if len(a) > 1 {
			tcant("print of several values")
		}
		return &s
	case "printf":
		s := tprintf(tstr(a[0]), a[1:])
		return &s
	}
	tcant("function " + name)
	return nil
}

// tprintf knows %s, %v, %q and %d.
func tprintf(f string, a []any) string {
	s := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			s += f[i : i+1]
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			s += "%"
			continue
		}
		if i >= len(f) || len(a) == 0 {
			tcant("this format")
		}
		switch f[i] {
		case 's', 'v', 'd':
			s += tshow(a[0])
		case 'q':
			s += strconv.Quote(tstr(a[0]))
		default:
			tcant("this format")
		}
		a = a[1:]
	}
	if len(a) > 0 {
		tcant("this format")
	}
	return s
}

// tshow prints a value as fmt does.
func tshow(p any) string {
	p = deref(p)
	if p == nil {
		return "<no value>"
	}
	switch rKind(p) {
	case rkString:
		return rStr(p)
	case rkBool:
		return strconv.FormatBool(rBool(p))
	case rkInt, rkUint:
		return strconv.FormatInt(rInt(p), 10)
	case rkSlice, rkArray:
		s := "["
		for i := 0; i < rLen(p); i++ {
			if i > 0 {
				s += " "
			}
			s += tshow(rIndex(p, i))
		}
		return s + "]"
	}
	tcant("printing this kind")
	return ""
}
