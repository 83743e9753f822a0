package h

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["P04_Mask"] = P04_Mask
	All["P04_Paths"] = P04_Paths
	All["P04_Args"] = P04_Args
	All["P04_Sources"] = P04_Sources
	All["P04_Known"] = P04_Known
	All["P04_Names"] = P04_Names
	All["P04_Scaled"] = P04_Scaled
	All["P05_Alpha"] = P05_Alpha
	All["P05_Known"] = P05_Known
	All["P05_Files"] = P05_Files
	All["P05_Names"] = P05_Names
	All["P06_Comments"] = P06_Comments
	All["P06_Ignore"] = P06_Ignore
	All["P06_IgnoreNames"] = P06_IgnoreNames
	All["P06_Skip"] = P06_Skip
	All["P06_Single"] = P06_Single
	All["P10_Files"] = P10_Files
	All["P10_External"] = P10_External
	All["P10_Alpha"] = P10_Alpha
	All["P11_Alpha"] = P11_Alpha
	All["P11_Names"] = P11_Names
	All["P11_Entry"] = P11_Entry
	All["P11_Nested"] = P11_Nested
	All["P11_Special"] = P11_Special
	All["P11_Scaled"] = P11_Scaled
}

// oddContexts are contexts nothing is known about.
var oddContexts = [][]string{{"foo"}, {"http", "foo"}, {"http", "http"}, {"server"}, {"http", "server", "server"}, {"http", "server", "if", "if"},
	{"events", "events"}, {"location"}, {"mail", "location"}, {"stream", "location"}, {"http", "upstream", "if"}, {"mgmt", "mgmt"}, {"oidc_provider"}, {"main"}, {"http>server"}, {"\"\""}}

// openCtx opens the blocks of a context.
func openCtx(path []string) string {
	return strings.Join(append(append([]string{}, path...), ""), " {")
}

func anyCtx() []string {
	k := nd.Pick(len(refContexts) + len(oddContexts))
	if k < len(refContexts) {
		return refContexts[k].path
	}
	return oddContexts[k-len(refContexts)]
}

// masked knows the directive dd and no other.
func masked(ms ...uint) cp.MatchFunc {
	return func(n string) ([]uint, bool) {
		if n == "dd" {
			return ms, true
		}
		return nil, false
	}
}

// checked parses s with the given rules and compares everything there is to an error.
func checked(s string, ru rules, lo cp.MatchFunc) {
	nd.Show("text", s)
	r := &ref{check: ru.check}
	o := &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, SkipDirectiveContextCheck: ru.skipCtx, SkipDirectiveArgsCheck: ru.skipArg, ErrorOnUnknownDirectives: ru.unknown}
	for _, f := range ru.lookup {
		o.DirectiveSources = append(o.DirectiveSources, cp.MatchFunc(f))
	}
	if lo != nil {
		o.DirectiveSources = nil
	}
	p := compareRef(s, r, o)
	for i, e := range p.Errors {
		nd.Assert(e.File == mainConf, "error for another file")
		var pe *cp.ParseError
		nd.Assert(errors.As(e.Error, &pe), "error of another kind")
		nd.Assert(pe.File != nil && *pe.File == mainConf, "error names another file")
		nd.Assert(pe.Line != nil && e.Line != nil && *pe.Line == *e.Line, "error names another line")
		if i < len(r.errs) && r.errs[i].stmt != "" {
			nd.Assert(strings.HasPrefix(pe.Statement, r.errs[i].stmt), "error names another statement")
			nd.Assert(pe.BlockCtx == r.errs[i].ctx, "error names another block")
		}
	}
	if len(p.Errors) > 0 {
		nd.Cover("rejected")
	} else {
		nd.Cover("accepted")
	}
}

func skips(n int) rules { return rules{skipCtx: n&1 != 0, skipArg: n&2 != 0} }

// P04_Mask: one directive with one mask of 64 arbitrary bits, in all 16 known contexts and 16 unknown ones, with 0 to
// 9 arguments or an expression, ended by each of ; { and }, under all combinations of the skip options.
func P04_Mask() {
	ctx := anyCtx()
	ru := skips(nd.Pick(4))
	ru.lookup = []func(string) ([]uint, bool){masked(uint(nd.Uint64()))}
	args := []string{"", "a", "a a", "a a a", "a a a a", "a a a a a", "a a a a a a", "a a a a a a a", "a a a a a a a a", "a a a a a a a a a", "(a)", "( a b )"}
	a := args[nd.Pick(len(args))]
	open := openCtx(ctx)
	end := []string{";", "{}", "}"}[nd.Pick(3)]
	n := len(ctx)
	if end == "}" {
		if n == 0 {
			return
		}
		n--
	}
	checked("\n"+open+"\n dd "+a+end+strings.Repeat("}", n), ru, nil)
}

// P04_Paths: a directive with one mask of 64 arbitrary bits in all paths of up to 3 (thorough: 4) blocks of 12 names, checked or not.
func P04_Paths() {
	names := []string{"http", "server", "location", "if", "limit_except", "upstream", "mail", "stream", "events", "foo", "mgmt", "oidc_provider"}
	var path []string
	for i := 0; i < tiered(3, 4); i++ {
		k := nd.Pick(len(names) + 1)
		if k == len(names) {
			break
		}
		path = append(path, names[k])
	}
	ru := rules{}
	ru.lookup = []func(string) ([]uint, bool){masked(uint(nd.Uint64()))}
	checked(openCtx(path)+"dd "+[]string{"a;", "{}"}[nd.Pick(2)]+strings.Repeat("}", len(path)), ru, nil)
}

// P04_Args: a directive of server with one mask of 64 arbitrary bits and 5 (thorough: 6) characters of arguments around flags and
// expressions.
func P04_Args() {
	ru := rules{lookup: []func(string) ([]uint, bool){masked(mSrv | uint(nd.Uint32()&0xffff))}}
	var a string
	switch nd.Pick(4) {
	case 0:
		a = nd.StrIn(tiered(4, 5), "()\" a")
	case 1:
		a = nd.StrIn(2, "oOnNmM0 ")
	case 2:
		a = nd.StrIn(3, "oOfFe0 ")
	case 3:
		a = []string{"\"on\"", "'OFF'", "o\\n", "on\n", "onn", "on on", "\"on \"", "o\xc5\x8a", "\u212a", "\"\"", "\"on\"\"\"", "oN;"}[nd.Pick(12)]
	}
	checked("http { server { dd "+a+[]string{";", "{}", ""}[nd.Pick(3)]+"}}", ru, nil)
}

// P04_Sources: up to 3 masks of 64 arbitrary bits in up to 3 sources (some of which do not know the directive), in 5
// contexts.
func P04_Sources() {
	m := []uint{uint(nd.Uint64()), uint(nd.Uint64())}
	ru := skips([]int{0, 0, 1, 2}[nd.Pick(4)])
	none := masked()
	_ = none
	other := func(n string) ([]uint, bool) { return nil, false }
	switch nd.Pick(6) {
	case 0:
		ru.lookup = []func(string) ([]uint, bool){masked(m...)}
	case 1:
		ru.lookup = []func(string) ([]uint, bool){masked(m[0]), masked(m[1])}
	case 2:
		ru.lookup = []func(string) ([]uint, bool){other, masked(m[0]), other}
	case 3:
		ru.lookup = []func(string) ([]uint, bool){masked(m[0]), other, masked(m[1])}
	case 4:
		ru.lookup = []func(string) ([]uint, bool){other, other}
		ru.unknown = nd.Pick(2) == 1
	case 5:
		ru.lookup = []func(string) ([]uint, bool){masked(m[0], m[1]), masked(m[0])}
	}
	ctx := [][]string{nil, {"http", "server"}, {"http", "server", "if"}, {"foo"}, {"stream"}}[nd.Pick(5)]
	a := []string{"", "on", "x", "a b", "(a)"}[nd.Pick(5)]
	if ru.unknown {
		ctx = nil
	}
	checked(openCtx(ctx)+"dd "+a+[]string{";", "{}"}[nd.Pick(2)]+strings.Repeat("}", len(ctx)), ru, nil)
}

var defaultRules = []func(string) ([]uint, bool){func(n string) ([]uint, bool) { return cp.DefaultDirectivesMatchFunc(n) }}

// P04_Known: 24 directives of the default set (or none), with 0 to 3 arguments or flags, as statement or block, in all 32 contexts,
// checked or with unknown directives rejected.
func P04_Known() {
	ctx := anyCtx()
	names := []string{"server", "listen", "location", "if", "set", "include", "worker_processes", "daemon", "upstream", "return", "proxy_pass", "map", "types", "error_log",
		"limit_except", "deny", "js_import", "otel_trace", "ssl_certificate", "zone", "license_token", "issuer", "http", "nope"}
	ru := rules{lookup: defaultRules, unknown: nd.Pick(2) == 1}
	d := names[nd.Pick(len(names))]
	a := []string{"", " on", " a b", " a b c", " (a)"}[nd.Pick(5)]
	if d == "include" {
		a = " /x/*"
	}
	s := openCtx(ctx) + d + a + []string{";", "{}"}[nd.Pick(2)] + strings.Repeat("}", len(ctx))
	checked(s, ru, cp.DefaultDirectivesMatchFunc)
}

// P04_Names: every string constant of the code as a directive with an arbitrary mask, and as a block around one.
func P04_Names() {
	n := nd.CodeStr()
	nd.Assume(n != "include" && !contains(mapKinds, n))
	m := []uint{uint(nd.Uint64())}
	ru := rules{lookup: []func(string) ([]uint, bool){func(s string) ([]uint, bool) {
		if s == n {
			return m, true
		}
		return nil, false
	}}}
	a := []string{"", "on", "(a)", "a b c d e f g h"}[nd.Pick(4)]
	ctx := [][]string{nil, {"http", "server"}, {"foo"}}[nd.Pick(3)]
	w := n
	if strings.ContainsAny(n, " \n\t{};\"'\\#") || n == "" {
		w = quoteArg(n)
	}
	if nd.Pick(2) == 0 {
		checked(openCtx(ctx)+w+" "+a+[]string{";", "{}"}[nd.Pick(2)]+strings.Repeat("}", len(ctx)), ru, nil)
		return
	}
	// as an argument
	ru.lookup = []func(string) ([]uint, bool){masked(m...)}
	checked(openCtx(ctx)+"dd "+w+";"+strings.Repeat("}", len(ctx)), ru, nil)
}

// quoteArg writes a value in double quotes.
func quoteArg(s string) string {
	return "\"" + strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"") + "\""
}

// P04_Scaled: a number of arguments, masks, sources or levels next to any constant of the code.
func P04_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(0, tiered(300, 2000))
	m := uint(nd.Uint64())
	ru := rules{}
	switch nd.Pick(3) {
	case 0:
		ru.lookup = []func(string) ([]uint, bool){masked(m)}
		checked("http { server { dd"+strings.Repeat(" a", n)+";}}", ru, nil)
	case 1:
		// only the last of n masks matters
		var ms []uint
		for i := 0; i < n; i++ {
			ms = append(ms, mMain|mNoArgs)
		}
		ru.lookup = []func(string) ([]uint, bool){masked(append(ms, m)...)}
		checked("http { server { dd a;}}", ru, nil)
	case 2:
		for i := 0; i < n; i++ {
			ru.lookup = append(ru.lookup, nothingKnown)
		}
		ru.lookup = append(ru.lookup, masked(m))
		checked("http { server { dd a;}}", ru, nil)
	}
}

// errShow renders an error with everything known about it.
func errShow(err error) string {
	s := err.Error()
	var pe *cp.ParseError
	if errors.As(err, &pe) {
		s += "|" + pe.What + "|" + pe.Statement + "|" + pe.BlockCtx
	}
	return s
}

// agree parses in both error modes and compares.
func agree(mk func() *cp.ParseOptions) {
	var seen []error
	o := mk()
	o.ErrorCallback = func(err error) interface{} {
		seen = append(seen, err)
		return len(seen)
	}
	p, err := cp.Parse(mainConf, o)
	o = mk()
	o.StopParsingOnError = true
	calls := 0
	o.ErrorCallback = func(err error) interface{} { calls++; return nil }
	p2, err2 := cp.Parse(mainConf, o)
	if err != nil {
		// what cannot be recorded for a file ends both
		nd.Assert(err2 != nil, "stopping on errors succeeds although collecting them fails")
		nd.Assert(p == nil && p2 == nil, "both payload and error")
		nd.Cover("fatal")
		if len(seen) > 0 {
			nd.Assert(errShow(err2) == errShow(seen[0]), "not the first error")
		} else {
			nd.Assert(errShow(err2) == errShow(err), "different errors")
		}
		return
	}
	nd.Show("errors", payloadErrs(p.Errors))
	nd.Assert(len(seen) == len(p.Errors), "the callback was not called once per error")
	for i, e := range p.Errors {
		nd.Assert(seen[i] == e.Error, "the callback was called with another error")
		k, ok := e.Callback.(int)
		nd.Assert(ok && k == i+1, "the result of the callback was not kept")
	}
	if len(p.Errors) == 0 {
		nd.Assert(err2 == nil, "stopping on errors reports an error that is not collected")
		nd.Assert(showPayload(p) == showPayload(p2), "payloads differ")
		nd.Cover("fine")
		return
	}
	nd.Assert(err2 != nil, "stopping on errors succeeds although there are errors")
	nd.Assert(p2 == nil, "both payload and error")
	nd.Show("first", errShow(err2))
	nd.Assert(errShow(err2) == errShow(p.Errors[0].Error), "not the first error")
	nd.Assert(lineOf(err2) == lineOf(p.Errors[0].Error), "other line")
	nd.Assert(calls == 0, "callback called although the error is returned")
	nd.Cover("errors")
}

// P05_Alpha: 5 (thorough: 6) characters in which statements named x are unknown, ignored ones are named i.
func P05_Alpha() {
	s := []string{"", "map a b {", "http { if ("}[nd.Pick(3)] + nd.StrIn(tiered(5, 6), "xi{};\"\n ")
	nd.Show("text", s)
	agree(func() *cp.ParseOptions {
		return &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, DirectiveSources: []cp.MatchFunc{notX}, IgnoreDirectives: []string{"i"}, ErrorOnUnknownDirectives: true, ParseComments: true}
	})
}

// anyStmts is a sequence of n statements from a list of good and bad ones of every kind.
func anyStmts(n int, list []string) string {
	s := ""
	for ; n > 0; n-- {
		s += list[nd.Pick(len(list))]
	}
	return s
}

var stmtList = []string{"a b;", "daemon on;\n", "daemon x;", "listen 80;", "events {", "http {", "}", "nope {x;}", "map $a $b {c;", "map $a $b {c d;}\n", "include gone;", "include a;", "include;", "include b*;", "if () {}", "\"", "x {;}", "ig {;}", "ig x;", "#c\n", "c}"}

func stmtOptions(s, a string) *cp.ParseOptions {
	v := oneFile(s)
	v.add("/etc/nginx/a", a)
	v.add("/etc/nginx/b1", "user x;")
	return &cp.ParseOptions{Open: v.open, Glob: func(p string) ([]string, error) {
		if p == "/etc/nginx/b*" {
			return []string{"/etc/nginx/b1"}, nil
		}
		return nil, errNotFound
	}, ErrorOnUnknownDirectives: true, IgnoreDirectives: []string{"ig"}, ParseComments: true}
}

// P05_Known: 3 (thorough: 4) of 21 statements, good and bad ones of every kind, including block starts and ends, under
// 8 combinations of options.
func P05_Known() {
	s := anyStmts(tiered(3, 4), stmtList)
	nd.Show("text", s)
	b := nd.Pick(8)
	agree(func() *cp.ParseOptions {
		o := stmtOptions(s, "nope;daemon on;")
		o.SkipDirectiveContextCheck, o.SkipDirectiveArgsCheck, o.CombineConfigs = b&1 != 0, b&1 != 0, b&2 != 0
		o.ErrorOnUnknownDirectives = b&4 == 0
		return o
	})
}

// P05_Files: a main file that includes two others, each of 2 of 21 statements (thorough: the main file with one more).
func P05_Files() {
	m := "include a;" + anyStmts(tiered(1, 2), stmtList) + "include b*;"
	a := anyStmts(2, stmtList)
	nd.Show("text", m+"|"+a)
	agree(func() *cp.ParseOptions { return stmtOptions(m, a) })
}

// P05_Names: every string constant of the code as a statement, with errors after it.
func P05_Names() {
	n := nd.CodeStr()
	s := []string{n + ";", n + " {" + n + ";}", n + " a {b;", "a " + n + ";c"}[nd.Pick(4)] + "\nnope;"
	b := nd.Pick(4)
	agree(func() *cp.ParseOptions {
		o := stmtOptions(s, "nope;")
		o.ErrorOnUnknownDirectives, o.SkipDirectiveContextCheck = b&1 != 0, b&2 != 0
		return o
	})
}

// noComments removes comment nodes.
func noComments(ds cp.Directives) cp.Directives {
	var out cp.Directives
	for _, d := range ds {
		if d.Comment != nil {
			nd.Assert(d.Directive == "#" && len(d.Args) == 0 && d.Block == nil, "odd comment node")
			continue
		}
		e := *d
		if d.Block != nil {
			e.Block = append(cp.Directives{}, noComments(d.Block)...)
		}
		out = append(out, &e)
	}
	return out
}

// P06_Comments: 6 (thorough: 7) characters of every class in 3 places, read with and without comments.
func P06_Comments() {
	s := []string{"", "map a b {", "include "}[nd.Pick(3)] + nd.StrIn(tiered(5, 6), "a{};\"#\n\\")
	nd.Show("text", s)
	mk := func(c bool) *cp.ParseOptions {
		o := stmtOptions(s, "#c\nx; #d\nnope #e\n{}")
		o.DirectiveSources = []cp.MatchFunc{notX}
		o.ParseComments = c
		return o
	}
	p, err := cp.Parse(mainConf, mk(true))
	p2, err2 := cp.Parse(mainConf, mk(false))
	nd.Assert((err == nil) == (err2 == nil), "errors differ")
	if err != nil {
		nd.Assert(errShow(err) == errShow(err2), "errors differ")
		return
	}
	nd.Assert(payloadErrs(p.Errors) == payloadErrs(p2.Errors), "errors differ")
	nd.Assert(len(p.Config) == len(p2.Config), "files differ")
	for i, c := range p.Config {
		nd.Assert(c.File == p2.Config[i].File && c.Status == p2.Config[i].Status, "files differ")
		a, b := tree(noComments(c.Parsed), true, true), tree(p2.Config[i].Parsed, true, true)
		nd.Show("without", a)
		nd.Show("never", b)
		nd.Assert(a == b, "trees differ")
		nd.Assert(tree(noComments(p2.Config[i].Parsed), true, true) == b, "comments although none were requested")
	}
	nd.Cover("end")
}

// without removes the statements named n outside map-like blocks.
func without(ds cp.Directives, n string, parent string) cp.Directives {
	var out cp.Directives
	for _, d := range ds {
		if d.Directive == n && !d.IsMapBlockParameter && d.Comment == nil {
			continue
		}
		e := *d
		if d.Block != nil {
			e.Block = append(cp.Directives{}, without(d.Block, n, d.Directive)...)
		}
		out = append(out, &e)
	}
	return out
}

// P06_Ignore: 6 (thorough: 7) characters, ignoring statements named x - against everything minus those, for text without errors.
func P06_Ignore() {
	s := []string{"", "map a b {", "http{include"}[nd.Pick(3)] + nd.StrIn(tiered(6, 7), "xb{};\" ")
	nd.Show("text", s)
	mk := func(i []string) *cp.ParseOptions {
		return &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, DirectiveSources: []cp.MatchFunc{nothingKnown}, IgnoreDirectives: i, SingleFile: true, ParseComments: true}
	}
	p, err := cp.Parse(mainConf, mk(nil))
	nd.Assert(err == nil, "error")
	p2, err := cp.Parse(mainConf, mk([]string{"x"}))
	nd.Assert(err == nil, "error")
	if len(p.Errors) > 0 {
		nd.Assert(len(p2.Errors) <= len(p.Errors), "ignoring adds errors")
		return
	}
	nd.Assert(len(p2.Errors) == 0, "ignoring adds errors")
	a, b := tree(without(p.Config[0].Parsed, "x", ""), true, true), tree(p2.Config[0].Parsed, true, true)
	nd.Show("expected", a)
	nd.Show("tree", b)
	nd.Assert(a == b, "trees differ")
	nd.Cover("end")
}

// ignorable are names that mean something to the parser or look like others.
var ignorable = []string{"include", "if", "server", "location", "http", "map", "types", "geoip2", "xx", "x", "a", "content_by_lua_block", "set_by_lua_block", "'#x'", "\"\"", "'{'", "upstream", "limit_except", "return", "'a b'", "X", "'if '"}

// P06_IgnoreNames: a statement of a name of 22 with meaning to the parser, or of any string constant of the code, in 7 forms and 5 places, ignored
// alone or along with others that do not occur (among them parts and extensions of names that do): the tree and errors are those of the
// text without the statement, in every file.
func P06_IgnoreNames() {
	var n string
	if k := nd.Pick(len(ignorable) + 1); k < len(ignorable) {
		n = ignorable[k]
	} else {
		n = nd.CodeStr()
		nd.Assume(utf8.ValidString(n) && len(n) > 0)
		n = quoteArg(n)
	}
	value := lexStr(n + " ;")[0].Value
	nd.Assume(value != "k" && value != "j" && value != "i" && value != "z")
	lo := cp.LexOptions{}
	form := nd.Pick(7)
	stmt := n + []string{" ;", " b;", " { c; }", " (x) {d {e '}' \"{\";}}", " /inc b;", " { http a; listen ; }", " on off { include nope; }"}[form]
	if strings.HasSuffix(value, "_by_lua_block") {
		lo = luaLex()
		stmt = n + " $x { '}' }"
		if value != "set_by_lua_block" {
			stmt = n + " { {}'}' }"
		}
	}
	place := [][2]string{{"", " k;"}, {"k; ", ""}, {"http { k {", "} k; }"}, {"http { server { ", "} k x; }"}, {"include /f;k {", "}"}}[nd.Pick(5)]
	for _, other := range []string{"k", "http", "server", "include"} {
		nd.Assume(value != other || !strings.Contains(place[0]+place[1], other))
	}
	run := func(s string, ig []string) *cp.Payload {
		v := oneFile(place[0] + s + place[1])
		v.add("/f", "j; "+s+" i;")
		v.add("/inc", "z;")
		o := &cp.ParseOptions{Open: v.open, Glob: noGlob, LexOptions: lo, IgnoreDirectives: ig, ParseComments: true}
		p, err := cp.Parse(mainConf, o)
		nd.Assert(err == nil, "error")
		return p
	}
	ig := [][]string{{value}, {"nope", value}, {value + "x", value, "y"}}[nd.Pick(3)]
	nd.Show("text", place[0]+stmt+place[1])
	nd.Show("ignored", strings.Join(ig, " "))
	p, p2 := run(stmt, ig), run("", nil)
	nd.Assert(payloadErrs(p.Errors) == payloadErrs(p2.Errors), "errors differ")
	nd.Assert(len(p.Config) == len(p2.Config), "files differ")
	for i, c := range p.Config {
		a, b := tree(c.Parsed, true, true), tree(p2.Config[i].Parsed, true, true)
		nd.Show("tree", a)
		nd.Show("expected", b)
		nd.Assert(a == b, "trees differ")
	}
	// what only looks like the name stays
	p3, p4 := run(stmt, []string{value + "x", "x" + value, strings.ToUpper(value) + "_", value + " "}), run(stmt, nil)
	for i, c := range p4.Config {
		nd.Assert(len(p3.Config) == len(p4.Config) && tree(c.Parsed, true, true) == tree(p3.Config[i].Parsed, true, true), "something else is ignored")
	}
	nd.Cover("end")
}

// P06_Skip: a mask of 64 arbitrary bits for d, 4 (thorough: 5) characters of a server block; the skip options against the
// reference: what is rejected by the skipped check, and only that, comes back.
func P06_Skip() {
	s := []string{"http {server {", "foo {", ""}[nd.Pick(3)] + nd.StrIn(tiered(4, 5), "da{}; ") + "}}"
	r := skips(nd.Pick(4))
	m := []uint{uint(nd.Uint64())}
	r.lookup = []func(string) ([]uint, bool){func(n string) ([]uint, bool) {
		if n == "d" {
			return m, true
		}
		return nil, false
	}}
	nd.Show("text", s)
	compareRef(s, &ref{check: r.check}, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, SkipDirectiveContextCheck: r.skipCtx, SkipDirectiveArgsCheck: r.skipArg,
		DirectiveSources: []cp.MatchFunc{r.lookup[0]}})
	nd.Cover("end")
}

// withoutIncludes forgets what includes were resolved to.
func withoutIncludes(ds cp.Directives) cp.Directives {
	var out cp.Directives
	for _, d := range ds {
		e := *d
		e.Includes = nil
		if d.Block != nil {
			e.Block = append(cp.Directives{}, withoutIncludes(d.Block)...)
		}
		out = append(out, &e)
	}
	return out
}

// P06_Single: 3 (thorough: 4) of 14 statements, read with and without following includes: the first file is the same but for the
// files listed and the errors of includes.
func P06_Single() {
	list := []string{"a b;", "daemon x;", "events {", "http {", "}", "nope {x;}", "map $a $b {include a;", "include gone;", "include a;", "include b*;", "include b1 {c;}", "ig {;}", "#c\n", "if (x) {include a}"}
	s := anyStmts(tiered(3, 4), list)
	nd.Show("text", s)
	mk := func(single bool) *cp.ParseOptions {
		o := stmtOptions(s, "x;y {")
		o.SingleFile = single
		o.ErrorOnUnknownDirectives = false
		return o
	}
	p, err := cp.Parse(mainConf, mk(false))
	nd.Assert(err == nil, "error")
	o := mk(true)
	v := oneFile(s)
	o.Open = v.open
	o.Glob = func(string) ([]string, error) {
		nd.Fail("looked for files to include")
		return nil, nil
	}
	p2, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	nd.Assert(len(v.opened) == 1, "opened other files")
	nd.Assert(len(p2.Config) == 1, "other files in the payload")
	a, b := tree(withoutIncludes(p.Config[0].Parsed), true, true), tree(p2.Config[0].Parsed, true, true)
	nd.Show("followed", a)
	nd.Show("single", b)
	nd.Assert(a == b, "trees differ")
	k := 0
	for _, e := range p.Errors {
		if e.File == mainConf && what(e.Error) != "no such file" {
			nd.Assert(k < len(p2.Errors) && errShow(p2.Errors[k].Error) == errShow(e.Error), "errors differ")
			k++
		}
	}
	nd.Assert(k == len(p2.Errors), "other errors")
	nd.Cover("end")
}

// consistent checks statuses and error lists.
func consistent(p *cp.Payload, combined bool) {
	st := func(n int) string {
		if n > 0 {
			return "failed"
		}
		return "ok"
	}
	nd.Assert(p.Status == st(len(p.Errors)), "status of the payload")
	nd.Assert(len(p.Config) > 0 && p.Config[0].File == mainConf, "the main file does not come first")
	k := 0
	for _, c := range p.Config {
		nd.Assert(c.Status == st(len(c.Errors)), "status of a file")
		for _, e := range c.Errors {
			nd.Assert(k < len(p.Errors), "errors missing in the payload")
			pe := p.Errors[k]
			nd.Assert(pe.Error == e.Error, "another error in the payload")
			if !combined {
				nd.Assert(pe.File == c.File, "error listed for another file")
			}
			nd.Assert((pe.Line == nil) == (e.Line == nil), "line missing")
			if d, ok := e.Error.(*cp.ParseError); ok && d.Line != nil {
				nd.Assert(e.Line != nil, "the line of the error is missing")
			}
			if e.Line != nil {
				nd.Assert(*e.Line == *pe.Line, "lines differ")
				nd.Assert(*e.Line == lineOf(e.Error), "not the line of the error")
			}
			var x *cp.ParseError
			if errors.As(e.Error, &x) {
				nd.Assert(x.File != nil && *x.File == pe.File, "error names another file")
			}
			k++
		}
	}
	nd.Assert(k == len(p.Errors), "errors missing in the files")
	if k > 0 {
		nd.Cover("failed")
	} else {
		nd.Cover("ok")
	}
}

// P10_Files: a main file of 2 (thorough: 3) of 21 statements that includes two others, one of them with 2 statements; combined or not.
func P10_Files() {
	m := "include a;" + anyStmts(tiered(1, 2), stmtList) + "include b*;" + anyStmts(1, stmtList)
	a := anyStmts(tiered(1, 2), stmtList)
	nd.Show("text", m+"|"+a)
	o := stmtOptions(m, a)
	o.CombineConfigs = nd.Pick(2) == 1
	p, err := cp.Parse(mainConf, o)
	if err != nil {
		nd.Cover("fatal")
		return
	}
	nd.Show("errors", payloadErrs(p.Errors))
	consistent(p, o.CombineConfigs)
}

// P10_External: errors of external lexers, with and without a line, of any type, alone or along with others, at the top or in a block of one of 2 files.
func P10_External() {
	line := 7
	es := []error{&cp.ParseError{What: "w"}, &cp.ParseError{What: "w", Line: &line}, errors.New("e"), cp.ErrPrematureLexEnd, io.ErrUnexpectedEOF,
		&wrapped{&cp.ParseError{What: "w", Line: &line}}}
	e := es[nd.Pick(len(es))]
	l := &extLexer{err: e}
	s := []string{"", "listen;", "http {nope;"}[nd.Pick(3)] + "ext a?" + []string{"! b;", "", "\n!}"}[nd.Pick(3)]
	m, in := s, "j;"
	if nd.Pick(2) == 1 {
		m, in = "include a;listen;", s
	}
	nd.Show("text", s)
	o := stmtOptions(m, in)
	o.LexOptions = cp.LexOptions{Lexers: []cp.RegisterLexer{cp.LexWithLexer(l, "ext")}}
	o.CombineConfigs = nd.Pick(2) == 1
	if nd.Pick(2) == 1 {
		o.ErrorCallback = func(err error) interface{} { return err.Error() }
	}
	if nd.Pick(2) == 1 {
		o.StopParsingOnError = true
		_, err := cp.Parse(mainConf, o)
		nd.Assert(err != nil, "an error of an external lexer is lost")
		return
	}
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	nd.Assert(len(p.Errors) > 0, "an error of an external lexer is lost")
	consistent(p, o.CombineConfigs)
	for _, pe := range p.Errors {
		if o.ErrorCallback == nil {
			nd.Assert(pe.Callback == nil, "a callback out of nowhere")
		} else {
			nd.Assert(pe.Callback == pe.Error.Error(), "the callback got another error")
		}
	}
}

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

// P10_Alpha: 5 (thorough: 6) characters of every class under 16 combinations of options; names of statements are any.
func P10_Alpha() {
	s := nd.StrIn(tiered(5, 6), "x{};\"\n ")
	nd.Show("text", s)
	o := stmtOptions(s, "x")
	b := nd.Pick(4)
	o.DirectiveSources = []cp.MatchFunc{notX}
	o.CombineConfigs, o.SkipDirectiveArgsCheck = b&1 != 0, b&2 != 0
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	consistent(p, o.CombineConfigs)
}

// P11_Alpha: the body of each kind of map-like block: 6 (thorough: 7) characters of every class, with comments.
func P11_Alpha() {
	k := []string{"map $a $b", "geo $a", "types", "match m"}[nd.Pick(4)]
	s := k + " {" + nd.StrIn(tiered(5, 6), "ab{};\"# \n") + "}c;"
	mapLike(s)
}

func mapLike(s string) {
	nd.Show("text", s)
	r := &ref{comments: true, ignore: []string{"b"}}
	o := &cp.ParseOptions{Open: oneFile(s).open, Glob: func(string) ([]string, error) {
		nd.Fail("an entry was taken for an include")
		return nil, nil
	}, ParseComments: true, IgnoreDirectives: r.ignore, DirectiveSources: []cp.MatchFunc{nothingKnown}}
	p := compareRef(s, r, o)
	if len(p.Errors) > 0 {
		nd.Cover("rejected")
	} else {
		nd.Cover("accepted")
	}
}

var mapOpen = []string{"map $a $b", "geo", "types", "match a", "split_clients $a $b", "charset_map a b", "geoip2 x", "otel_exporter", "mapx", "Map", "geo2", "upstream u", "\"map\""}

// P11_Names: every string constant of the code as an entry with 0 to 3 values, quoted or not, in each kind of map-like
// block and in blocks that are none.
func P11_Names() {
	n := nd.CodeStr()
	w := n
	if strings.ContainsAny(n, " \n\t{};\"'\\#") || n == "" {
		w = quoteArg(n)
	}
	if nd.Pick(2) == 1 {
		w = quoteArg(n)
	}
	k := mapOpen[nd.Pick(len(mapOpen))]
	s := k + " {" + w + []string{"", " a", " a b", " a b c", " " + w}[nd.Pick(5)] + ";}c;"
	if strings.HasPrefix(n, "include") && !contains(mapKinds, strings.Trim(strings.Fields(k)[0], "\"")) {
		return
	}
	mapLike(s)
}

// P11_Entry: an entry of 5 arbitrary bytes, with 0 to 9 values, ended by ; { or }, at the top, in http and in a location, for every kind.
func P11_Entry() {
	k := mapOpen[nd.Pick(len(mapOpen))]
	outer := [][]string{nil, {"http"}, {"http", "location"}, {"map2"}}[nd.Pick(4)]
	e := ""
	end := ""
	if nd.Pick(2) == 0 {
		e = "e" + strings.Repeat(" v", nd.Pick(10))
		end = ";"
	} else {
		e = nd.StrIn(2, "rev$#~\xc3\\") + nd.Str(1) + " x"
		end = []string{";", "{y;}", "", "\\;", ";;"}[nd.Pick(5)]
	}
	mapLike(openCtx(outer) + k + " {" + e + end + "}" + strings.Repeat("}", len(outer)) + "z;")
}

// P11_Special: an entry named like a special parameter or a default but for one arbitrary byte, which is changed, added or taken away anywhere, with 0
// to 2 values, in each kind of block.
func P11_Special() {
	k := mapOpen[nd.Pick(8)]
	sp := []string{"ranges", "proxy_recursive", "volatile", "hostnames", "auto_reload", "default"}[nd.Pick(6)]
	i := nd.Pick(len(sp) + 1)
	switch nd.Pick(3) {
	case 0:
		nd.Assume(i < len(sp))
		b := nd.Byte()
		nd.Assume(nd.Or(nd.And(b >= '_', b <= 'z'), nd.Or(nd.And(b >= 'A', b <= 'Z'), b >= 0x80)))
		sp = sp[:i] + string([]byte{b}) + sp[i+1:]
	case 1:
		sp = sp[:i] + nd.StrIn(1, "as_A1\\\xc3") + sp[i:]
	case 2:
		nd.Assume(i < len(sp))
		sp = sp[:i] + sp[i+1:]
	}
	mapLike(k + "{" + sp + []string{"", " a", " a b"}[nd.Pick(3)] + ";}")
}

// P11_Nested: every kind of map-like block within every other, and special parameters in all kinds.
func P11_Nested() {
	a, b := mapOpen[nd.Pick(len(mapOpen))], mapOpen[nd.Pick(len(mapOpen))]
	sp := []string{"ranges", "proxy_recursive", "volatile", "hostnames", "auto_reload", "default", "include"}[nd.Pick(7)]
	if sp == "include" && !contains(mapKinds, strings.Trim(strings.Fields(a)[0], "\"")) {
		return
	}
	body := sp + []string{"", " a", " a b"}[nd.Pick(3)] + ";"
	if nd.Pick(2) == 1 {
		mapLike(a + "{" + body + b + " {x y;} " + body + "}" + b + " {x y; }")
		return
	}
	mapLike("http {" + a + " {" + body + "}" + "location / {" + a + " {" + body + "}}}")
}

// P11_Scaled: a number of entries, values or characters next to any constant of the code.
func P11_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(1100, 5000))
	k := []string{"map $a $b", "types"}[nd.Pick(2)]
	switch nd.Pick(3) {
	case 0:
		mapLike(k + " {" + strings.Repeat("a b;", n) + "}c;")
	case 1:
		mapLike(k + " {a" + strings.Repeat(" b", n) + ";d e;}c;")
	case 2:
		mapLike(k + " {" + strings.Repeat("a", n) + " " + strings.Repeat("b", n) + ";}c;")
	}
}

var _ io.Reader
