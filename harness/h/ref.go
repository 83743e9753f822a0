package h

import (
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// Reference parser: what the tree and the errors of one file must be, computed from the reference tokens.

type rnode struct {
	name    string
	line    int
	args    []string
	comment bool
	entry   bool
	isBlock bool
	block   []rnode
}

type rerr struct {
	what string
	line int
	stmt string // name of the rejected statement
	ctx  string // block it is in
}

type ref struct {
	comments bool
	ignore   []string
	// check tells what is wrong with a statement, "" if nothing
	check func(name string, args []string, term string, ctx []string) string
	maps  bool

	ts    []tok
	i     int
	errs  []rerr
	fatal bool
}

var mapKinds = []string{"map", "geo", "types", "match", "split_clients", "charset_map", "geoip2", "otel_exporter"}

func contains(xs []string, x string) bool {
	for _, s := range xs {
		if s == x {
			return true
		}
	}
	return false
}

// refParse parses text.
func (p *ref) parse(text string, ctx []string) []rnode {
	p.ts = refLex(text)
	ns := p.block(ctx)
	if p.fatal {
		return nil
	}
	return ns
}

func (p *ref) fail(what string, line int) {
	p.fatal = true
	p.errs = append(p.errs, rerr{what: what, line: line})
}

// skip consumes the rest of a block.
func (p *ref) skip() {
	for depth := 1; depth > 0 && p.i < len(p.ts); p.i++ {
		t := p.ts[p.i]
		if t.err != "" {
			p.fail(t.err, t.line)
			return
		}
		if !t.quoted && t.val == "{" {
			depth++
		}
		if !t.quoted && t.val == "}" {
			depth--
		}
	}
}

func (p *ref) block(ctx []string) (out []rnode) {
	for p.i < len(p.ts) && !p.fatal {
		t := p.ts[p.i]
		p.i++
		if t.err != "" {
			p.fail(t.err, t.line)
			return
		}
		if !t.quoted && t.val == "}" {
			return
		}
		if !t.quoted && strings.HasPrefix(t.val, "#") {
			if p.comments {
				out = append(out, rnode{name: t.val[1:], line: t.line, comment: true})
			}
			continue
		}
		n := rnode{name: t.val, line: t.line}
		var cs []rnode
		term := ""
		for term == "" {
			if p.i >= len(p.ts) {
				p.fail("premature end of file", n.line)
				return
			}
			a := p.ts[p.i]
			p.i++
			switch {
			case a.err == "unexpected end of file, expecting \"}\"":
				p.fail("premature end of file", n.line)
				return
			case a.err != "":
				p.fail(a.err, a.line)
				return
			case a.quoted:
				n.args = append(n.args, a.val)
			case a.val == "{" || a.val == "}" || a.val == ";":
				term = a.val
			case strings.HasPrefix(a.val, "#"):
				if p.comments {
					cs = append(cs, rnode{name: a.val[1:], line: n.line, comment: true})
				}
			default:
				n.args = append(n.args, a.val)
			}
		}
		what, entry := "", false
		if len(ctx) > 0 && p.maps && contains(mapKinds, ctx[len(ctx)-1]) {
			entry = true
			what = checkEntry(ctx[len(ctx)-1], n.name, len(n.args), term)
		} else if contains(p.ignore, n.name) {
			if term == "{" {
				p.skip()
			}
			if term == "}" {
				return
			}
			continue
		} else {
			what = p.check(n.name, n.args, term, ctx)
		}
		if what != "" {
			in := "main"
			if len(ctx) > 0 {
				in = ctx[len(ctx)-1]
			}
			p.errs = append(p.errs, rerr{what, n.line, n.name, in})
			if term == "{" {
				p.skip()
			}
			if term == "}" {
				return
			}
			continue
		}
		n.entry = entry
		if n.name == "if" && !entry {
			n.args = stripIf(n.args)
		}
		if term == "{" {
			n.isBlock = true
			n.block = p.block(inner(ctx, n.name))
		}
		out = append(append(out, n), cs...)
		if term == "}" {
			return
		}
	}
	return
}

// inner is the context of the block of a statement.
func inner(ctx []string, name string) []string {
	if len(ctx) > 0 && ctx[0] == "http" && name == "location" {
		return []string{"http", "location"}
	}
	return append(append([]string{}, ctx...), name)
}

// stripIf removes the parentheses around the arguments of an if.
func stripIf(args []string) []string {
	n := len(args)
	if n == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[n-1], ")") {
		return args
	}
	as := append([]string{}, args...)
	as[0] = strings.TrimLeft(as[0][1:], " \t\r\n\v\f\u0085\u00a0")
	if as[n-1] != "" {
		as[n-1] = strings.TrimRight(strings.TrimSuffix(as[n-1], ")"), " \t\r\n\v\f\u0085\u00a0")
	}
	if as[0] == "" {
		as = as[1:]
	}
	if k := len(as); k > 0 && as[k-1] == "" {
		as = as[:k-1]
	}
	return as
}

// checkEntry tells what is wrong with an entry of a map-like block.
func checkEntry(kind, name string, n int, term string) string {
	if term != ";" {
		return "unexpected \"" + term + "\""
	}
	ok := n == 1
	switch {
	case kind == "geo" && (name == "ranges" || name == "proxy_recursive"):
		ok = n == 0
	case kind == "map" && (name == "volatile" || name == "hostnames"):
		ok = n == 0
	case kind == "match" || kind == "types":
		ok = n >= 1
	case kind == "geoip2" && name != "auto_reload":
		ok = n >= 1
	}
	if ok {
		return ""
	}
	return "invalid number of parameters"
}

// accept has no objections.
func accept(string, []string, string, []string) string { return "" }

func refTree(ns []rnode, lines bool) string {
	s := ""
	for _, n := range ns {
		if n.comment {
			s += "<1'#'"
		} else {
			s += "<" + q(n.name)
		}
		if lines {
			s += "@" + itoa(n.line)
		}
		for _, a := range n.args {
			s += " " + q(a)
		}
		if n.comment {
			s += "#" + q(n.name)
		}
		if n.entry {
			s += "&"
		}
		if n.isBlock {
			s += "{" + refTree(n.block, lines) + "}"
		}
		s += ">"
	}
	return s
}

func refErrs(es []rerr) string {
	s := ""
	for _, e := range es {
		s += "!" + e.what + "@" + itoa(e.line)
	}
	return s
}

func payloadErrs(es []cp.PayloadError) string {
	s := ""
	for _, e := range es {
		s += "!" + what(e.Error)
		if e.Line != nil {
			s += "@" + itoa(*e.Line)
		}
	}
	return s
}

// Masks, as documented in analyze.go and the NGINX sources.
const (
	mNoArgs  = 0x1
	mBlock   = 0x100
	mExpr    = 0x200
	mFlag    = 0x400
	mAny     = 0x800
	m1More   = 0x1000
	m2More   = 0x2000
	mMain    = 0x40000
	mEvents  = 0x80000
	mMgmt    = 0x20000
	mHTTP    = 0x2000000
	mSrv     = 0x4000000
	mLoc     = 0x8000000
	mUps     = 0x10000000
	mSif     = 0x20000000
	mLif     = 0x40000000
	mLmt     = 0x80000000
	mOIDC    = 0x100000000
	mMail    = 0x100000
	mMailSrv = 0x200000
	mStream  = 0x400000
	mStrSrv  = 0x800000
	mStrUps  = 0x1000000
)

type refCtx struct {
	path []string
	bit  uint
}

var refContexts = []refCtx{
	{nil, mMain},
	{[]string{"http"}, mHTTP},
	{[]string{"http", "server"}, mSrv},
	{[]string{"http", "location"}, mLoc},
	{[]string{"events"}, mEvents},
	{[]string{"mail"}, mMail},
	{[]string{"mail", "server"}, mMailSrv},
	{[]string{"stream"}, mStream},
	{[]string{"stream", "server"}, mStrSrv},
	{[]string{"stream", "upstream"}, mStrUps},
	{[]string{"http", "upstream"}, mUps},
	{[]string{"http", "server", "if"}, mSif},
	{[]string{"http", "location", "if"}, mLif},
	{[]string{"http", "location", "limit_except"}, mLmt},
	{[]string{"mgmt"}, mMgmt},
	{[]string{"http", "oidc_provider"}, mOIDC},
}

func ctxBit(ctx []string) (uint, bool) {
	for _, c := range refContexts {
		if len(c.path) == len(ctx) {
			same := true
			for i := range ctx {
				same = same && c.path[i] == ctx[i]
			}
			if same {
				return c.bit, true
			}
		}
	}
	return 0, false
}

// maskSays tells what a mask objects to, given the arguments and the terminator.
func maskSays(mask uint, name string, args []string, term string) string {
	if mask&mExpr != 0 && !isExpr(args) {
		return "directive \"" + name + "\"'s is not enclosed in parentheses"
	}
	if mask&mBlock != 0 && term != "{" {
		return "directive \"" + name + "\" has no opening \"{\""
	}
	if mask&mBlock == 0 && term != ";" {
		return "directive \"" + name + "\" is not terminated by \";\""
	}
	n := len(args)
	if n <= 7 && mask&(1<<n) != 0 {
		return ""
	}
	if mask&mAny != 0 || mask&m1More != 0 && n >= 1 || mask&m2More != 0 && n >= 2 {
		return ""
	}
	if mask&mFlag != 0 && n == 1 {
		if isFlag(args[0]) {
			return ""
		}
		return "invalid value \"" + args[0] + "\" in \"" + name + "\" directive, it must be \"on\" or \"off\""
	}
	return "invalid number of arguments in \"" + name + "\" directive"
}

func isFlag(s string) bool {
	if len(s) == 2 {
		return (s[0] == 'o' || s[0] == 'O') && (s[1] == 'n' || s[1] == 'N')
	}
	if len(s) == 3 {
		return (s[0] == 'o' || s[0] == 'O') && (s[1] == 'f' || s[1] == 'F') && (s[2] == 'f' || s[2] == 'F')
	}
	return false
}

// isExpr tells whether the arguments are a non-empty expression in parentheses.
func isExpr(args []string) bool {
	n := len(args)
	if n == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[n-1], ")") {
		return false
	}
	switch n {
	case 1:
		return len(args[0]) > 2
	case 2:
		return args[0] != "(" || args[1] != ")"
	}
	return true
}

// rules describes the checks of a parse.
type rules struct {
	lookup           []func(string) ([]uint, bool)
	unknown          bool // unknown directives are errors
	skipCtx, skipArg bool
}

func (r rules) check(name string, args []string, term string, ctx []string) string {
	var masks []uint
	known := false
	for _, f := range r.lookup {
		if ms, ok := f(name); ok {
			masks = append(masks, ms...)
			known = true
		}
	}
	if !known {
		if r.unknown {
			return "unknown directive \"" + name + "\""
		}
		return ""
	}
	bit, ok := ctxBit(ctx)
	if !ok {
		return ""
	}
	allowed, last := false, ""
	for _, m := range masks {
		if !r.skipCtx && m&bit == 0 {
			continue
		}
		allowed = true
		if r.skipArg {
			return ""
		}
		last = maskSays(m, name, args, term)
		if last == "" {
			return ""
		}
	}
	if !allowed {
		return "\"" + name + "\" directive is not allowed here"
	}
	return last
}
