package h

import (
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["P01_Alpha"] = P01_Alpha
	All["P01_Bytes"] = P01_Bytes
	All["P01_Known"] = P01_Known
	All["P01_If"] = P01_If
	All["P01_Names"] = P01_Names
	All["P01_Scaled"] = P01_Scaled
	All["P02_Alpha"] = P02_Alpha
	All["P02_Tree"] = P02_Tree
	All["P02_If"] = P02_If
	All["P02_Names"] = P02_Names
	All["P02_Scaled"] = P02_Scaled
	All["P03_Alpha"] = P03_Alpha
	All["P03_Drop"] = P03_Drop
	All["P03_Content"] = P03_Content
	All["P03_Scaled"] = P03_Scaled
}

const parseAlpha = "a{};\"# \n"

// anyOptions returns options in all combinations of the flags.
func anyOptions() *cp.ParseOptions {
	b := nd.Pick(64)
	return &cp.ParseOptions{
		StopParsingOnError: b&1 != 0, CombineConfigs: b&2 != 0, ParseComments: b&4 != 0, ErrorOnUnknownDirectives: b&8 != 0,
		SkipDirectiveContextCheck: b&16 != 0, SkipDirectiveArgsCheck: b&32 != 0,
	}
}

// wellFormed checks a result of parsing.
func wellFormed(p *cp.Payload, err error, v *vfs) {
	if err != nil {
		nd.Assert(p == nil, "both payload and error")
		nd.Assert(err.Error() != "", "error without message")
		nd.Cover("error")
		return
	}
	nd.Assert(p != nil, "neither payload nor error")
	for _, e := range p.Errors {
		nd.Assert(e.Error != nil && what(e.Error) != "", "error without message")
		text, found := "", false
		for i, n := range v.names {
			if n == e.File {
				text, found = v.texts[i], true
			}
		}
		nd.Assert(found, "error for a file that was not parsed")
		nd.Assert(e.Line != nil, "error without line")
		nd.Assert(*e.Line >= 1 && *e.Line <= 1+strings.Count(text, "\n"), "line outside the file")
	}
	if len(p.Errors) > 0 {
		nd.Cover("recorded errors")
	} else {
		nd.Cover("fine")
	}
}

func totalParse(s string, o *cp.ParseOptions) {
	nd.Show("text", s)
	v := oneFile(s)
	v.add("/etc/nginx/b", "a b;\n}")
	o.Open = v.open
	o.Glob = func(p string) ([]string, error) {
		if strings.HasPrefix(p, "/etc/nginx/[") {
			return nil, errNotFound
		}
		return []string{"/etc/nginx/b"}, nil
	}
	p, err := cp.Parse(mainConf, o)
	wellFormed(p, err, v)
	if p != nil {
		nd.Show("payload", showPayload(p))
	}
}

// P01_Alpha: 3 (thorough: 4) characters of every class behind 8 prefixes under all 64 combinations of the flags.
func P01_Alpha() {
	pre := []string{"", "if ", "map a b {", "include ", "http {", "events { x", "include;", "content_by_lua_block {"}
	s := pre[nd.Pick(len(pre))] + nd.StrIn(tiered(3, 4), "b{};\"\\#* \n")
	o := anyOptions()
	o.IgnoreDirectives = []string{"x", "bb"}
	o.LexOptions = luaLex()
	totalParse(s, o)
}

// P01_Bytes: 3 arbitrary bytes, in the default mode and with everything checked and stopping.
func P01_Bytes() {
	o := &cp.ParseOptions{ParseComments: true}
	if nd.Pick(2) == 1 {
		o = &cp.ParseOptions{StopParsingOnError: true, ErrorOnUnknownDirectives: true, CombineConfigs: true}
	}
	totalParse(nd.Str(tiered(2, 3))+" x;"+nd.Str(1), o)
}

// P01_Known: known directives (blocks, flags, expressions, includes) with 3 (thorough: 4) characters of arguments and ends, in 6
// contexts, with and without context and argument checks, in both error modes.
func P01_Known() {
	ctx := []string{"", "http {", "http { server {", "http { server { location / {", "events {", "stream { upstream a {"}
	names := []string{"server", "if", "listen", "sendfile", "include", "limit_except", "types", "map $a $b"}
	s := ctx[nd.Pick(len(ctx))] + names[nd.Pick(len(names))] + nd.StrIn(tiered(3, 4), "({});\" \n") + "}}"
	b := nd.Pick(8)
	totalParse(s, &cp.ParseOptions{StopParsingOnError: b&1 != 0, SkipDirectiveContextCheck: b&2 != 0, SkipDirectiveArgsCheck: b&4 != 0})
}

// P01_If: the arguments of "if": 5 (thorough: 6) characters around parentheses.
func P01_If() {
	s := "http {server {if" + nd.StrIn(tiered(5, 6), "() a\"{") + "{b;}}}"
	b := nd.Pick(4)
	totalParse(s, &cp.ParseOptions{SkipDirectiveContextCheck: true, SkipDirectiveArgsCheck: b&1 != 0, ParseComments: b&2 != 0})
}

// P01_Names: every string constant of the code as a statement name, argument, block and content.
func P01_Names() {
	n := nd.CodeStr()
	t := []string{n + ";", "a " + n + ";", n + " {" + n + " a;}", n + " " + n + " {}", "http{" + n + " (a) b;" + n, "map $a $b {" + n + ";}"}
	b := nd.Pick(4)
	totalParse(t[nd.Pick(len(t))], &cp.ParseOptions{SkipDirectiveContextCheck: b&1 != 0, SkipDirectiveArgsCheck: b&1 != 0, CombineConfigs: b&2 != 0, ParseComments: true})
}

// P01_Scaled: statements, arguments, nesting, words and includes in a number next to any constant of the code.
func P01_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(2100, 20000))
	var s string
	switch nd.Pick(6) {
	case 0:
		s = strings.Repeat("a;", n)
	case 1:
		s = "a" + strings.Repeat(" b", n) + ";"
	case 2:
		nd.Assume(n <= 300)
		s = strings.Repeat("a{", n) + strings.Repeat("}", n)
	case 3:
		s = strings.Repeat("a", n) + " " + strings.Repeat("b", n) + ";"
	case 4:
		nd.Assume(n <= 300)
		s = strings.Repeat("include b;", n)
	case 5:
		nd.Assume(n <= 300)
		s = strings.Repeat("nope x {}", n)
	}
	o := &cp.ParseOptions{CombineConfigs: nd.Pick(2) == 1, ErrorOnUnknownDirectives: nd.Pick(2) == 1}
	v := oneFile(s)
	v.add("/etc/nginx/b", "a b;\n}")
	o.Open = v.open
	o.Glob = noGlob
	p, err := cp.Parse(mainConf, o)
	wellFormed(p, err, v)
}

// mirrored parses s without any checks and compares with the reference parser.
func mirrored(s string, r *ref) *cp.Payload {
	nd.Show("text", s)
	o := &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, ParseComments: r.comments, DirectiveSources: []cp.MatchFunc{nothingKnown}, IgnoreDirectives: r.ignore}
	return compareRef(s, r, o)
}

func compareRef(s string, r *ref, o *cp.ParseOptions) *cp.Payload {
	r.maps = true
	if r.check == nil {
		r.check = accept
	}
	want := r.parse(s, nil)
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	c := p.Config[0]
	got := tree(c.Parsed, true, false)
	nd.Show("tree", got)
	nd.Show("expected", refTree(want, true))
	nd.Show("errors", payloadErrs(p.Errors))
	nd.Show("expected errors", refErrs(r.errs))
	if len(r.errs) == 0 {
		nd.Assert(len(p.Errors) == 0, "unexpected error")
	}
	nd.Assert(payloadErrs(p.Errors) == refErrs(r.errs), "errors differ")
	nd.Assert(got == refTree(want, true), "tree differs")
	return p
}

// P02_Alpha: 6 (thorough: 7) characters of every class; with comments.
func P02_Alpha() {
	r := &ref{comments: true}
	mirrored(nd.StrIn(tiered(6, 7), parseAlpha), r)
	if len(r.errs) == 0 {
		nd.Cover("accepted")
	}
}

// gen makes statements with arbitrary arguments, and what they must become.
type gen struct {
	text  string
	fuel  int // arguments whose form is arbitrary
	seps  int // separators that are arbitrary
	stmts int
}

func (g *gen) sep() {
	if g.seps == 0 {
		g.text += " "
		return
	}
	g.seps--
	g.text += []string{" ", "\n\t", "\r\n", " #c{;\n"}[nd.Pick(4)]
}

// opt is white space that may be left out.
func (g *gen) opt() {
	if g.seps > 0 {
		g.seps--
		g.text += []string{"", "\n", " # '\n"}[nd.Pick(3)]
	}
}

// value appends an argument and returns its value.
func (g *gen) value() string {
	if g.fuel == 0 {
		g.text += "w"
		return "w"
	}
	g.fuel--
	switch nd.Pick(6) {
	case 0:
		v := nd.StrIn(1, "ab$=.\xc3") + "a" + nd.StrIn(1, "a\"'#.")
		nd.Assume(v[0] != 0xc3)
		g.text += v
		return v
	case 1:
		v := "\\" + nd.StrIn(1, "{};\"'# \\n$")
		g.text += v
		return v
	case 2:
		v := "a${b" + nd.StrIn(1, "{;\"'#a") + "}" + nd.StrIn(1, "a\"")
		g.text += v
		return v
	case 3:
		v := nd.StrIn(2, "a{};' #\n$")
		g.text += "\"" + v + "\""
		return v
	case 4:
		v := nd.StrIn(1, "a{};\" #\n$")
		g.text += "'" + v + "\\'\\n'"
		return v + "'\\n"
	}
	g.text += "\"\""
	return ""
}

func (g *gen) stmt(depth int) rnode {
	g.stmts--
	n := rnode{name: "d"}
	switch {
	case g.fuel > 0 && nd.Pick(2) == 1:
		n.name = g.value()
	default:
		g.text += "d"
	}
	for k := nd.Pick(3); k > 0; k-- {
		g.sep()
		n.args = append(n.args, g.value())
	}
	if depth > 0 && nd.Pick(2) == 1 {
		g.opt()
		g.text += " {"
		g.opt()
		n.isBlock = true
		n.block = g.list(depth - 1)
		g.text += "}"
		return n
	}
	g.opt()
	g.text += ";"
	return n
}

func (g *gen) list(depth int) (ns []rnode) {
	for g.stmts > 0 && nd.Pick(2) == 1 {
		ns = append(ns, g.stmt(depth))
		g.opt()
	}
	return
}

// P02_Tree: up to 3 statements nested up to 2 deep, built from arguments of 6 forms (2 (thorough: 3) of them
// arbitrary, with arbitrary characters), with 3 arbitrary separators among which comments; read without comments.
func P02_Tree() {
	g := &gen{fuel: tiered(1, 2), seps: 2, stmts: tiered(3, 3)}
	want := g.list(2)
	nd.Show("text", g.text)
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(g.text).open, Glob: noGlob, DirectiveSources: []cp.MatchFunc{nothingKnown}, StopParsingOnError: true})
	nd.Assert(err == nil, "error returned")
	got := tree(p.Config[0].Parsed, false, false)
	nd.Show("tree", got)
	nd.Assert(got == refTree(want, false), "tree differs")
	nd.Cover("end")
}

// P02_If: "if" with 6 (thorough: 7) characters of arguments.
func P02_If() {
	r := &ref{comments: true}
	mirrored("http {if"+nd.StrIn(tiered(6, 7), "( )a\"=")+"{b;}}c;", r)
	nd.Cover("end")
}

// P02_Names: every string constant of the code as name, argument, block name, quoted or not, in 4 places.
func P02_Names() {
	n := nd.CodeStr()
	nd.Assume(!strings.HasPrefix(n, "include"))
	t := []string{n + " a;", "a " + n + " b;c;", n + " {a;}b;", "\"" + n + "\" \"" + n + "\"{c " + n + ";" + n + " d;}e;", "http{" + n + " a {b;}}"}
	mirrored(t[nd.Pick(len(t))], &ref{comments: true})
	nd.Cover("end")
}

// P02_Scaled: a number of statements, arguments, levels, characters or comments next to any constant of the code.
func P02_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(1100, 5000))
	var s string
	switch nd.Pick(5) {
	case 0:
		s = strings.Repeat("a;", n)
	case 1:
		s = "a" + strings.Repeat(" b", n) + ";"
	case 2:
		nd.Assume(n <= 300)
		s = strings.Repeat("a{", n) + "b;" + strings.Repeat("}c;", n)
	case 3:
		s = strings.Repeat("a", n) + " \"" + strings.Repeat("b", n) + "\";"
	case 4:
		s = strings.Repeat("#a\n", n) + "b;"
	}
	r := &ref{comments: true, check: accept, maps: true}
	want := r.parse(s, nil)
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, ParseComments: true, DirectiveSources: []cp.MatchFunc{nothingKnown}})
	nd.Assert(err == nil && len(p.Errors) == 0, "error")
	nd.Assert(tree(p.Config[0].Parsed, true, false) == refTree(want, true), "tree differs")
	nd.Cover("end")
}

// P03_Alpha: 6 (thorough: 7) characters in which a statement named x is unknown and one named i is ignored.
func P03_Alpha() {
	r := &ref{ignore: []string{"i"}, check: rules{lookup: []func(string) ([]uint, bool){notX}, unknown: true}.check}
	s := nd.StrIn(tiered(6, 7), "xib{}; \"")
	nd.Show("text", s)
	o := &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, DirectiveSources: []cp.MatchFunc{notX}, IgnoreDirectives: r.ignore, ErrorOnUnknownDirectives: true}
	compareRef(s, r, o)
	switch {
	case r.fatal:
		nd.Cover("fatal")
	case len(r.errs) > 0:
		nd.Cover("rejected")
	}
}

// notX knows every directive but x, and allows it everywhere, with any arguments, as a block or not.
func notX(n string) ([]uint, bool) {
	if strings.HasPrefix(n, "x") {
		return nil, false
	}
	m := uint(mMain | mHTTP | mSrv | mLoc | mEvents | mAny)
	return []uint{m, m | mBlock}, true
}

// P03_Drop: a text with a statement that is rejected (unknown, misplaced, wrong number of arguments, wrong end, bad
// map entry, missing include) or ignored, in 6 places, with arguments and content of 2 (thorough: 3) characters of
// every class and ended by each of ; { } - against the text without it.
func P03_Drop() {
	pre := []string{"", "http {", "a {b {c;", "map $a $b {d e;", "http { server {f on;", "g;events {"}
	post := []string{"", "}", "}}h;", "}i;", "}j;}", "}"}
	k := nd.Pick(len(pre))
	bad := []string{"zz", "listen", "daemon on off", "ig", "mail", "include none"}[nd.Pick(6)]
	if nd.Pick(2) == 1 {
		bad += " " + nd.StrIn(1, "a{}\"") + "\""
	}
	content := nd.StrIn(tiered(2, 3), "a{};\"#\n")
	full, without := "", ""
	switch nd.Pick(3) {
	case 0:
		full, without = pre[k]+bad+";"+"k l;"+post[k], pre[k]+"k l;"+post[k]
	case 1:
		full, without = pre[k]+bad+" {"+content+"}"+"k l;"+post[k], pre[k]+"k l;"+post[k]
	case 2:
		nd.Assume(strings.HasPrefix(post[k], "}"))
		full, without = pre[k]+"k l;"+bad+post[k], pre[k]+"k l;"+post[k]
	}
	// leave lexical errors and statements that end elsewhere to the other harnesses
	nd.Assume(wholeStatement(pre[k], full, without))
	nd.Show("text", full)
	opts := func(s string) *cp.ParseOptions {
		return &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, IgnoreDirectives: []string{"ig"}, ErrorOnUnknownDirectives: false,
			DirectiveSources: []cp.MatchFunc{func(n string) ([]uint, bool) {
				switch n {
				case "zz":
					return []uint{mLmt | mAny, mLmt | mAny | mBlock}, true
				case "listen", "daemon", "mail", "include":
					return cp.DefaultDirectivesMatchFunc(n)
				}
				return nil, false
			}}}
	}
	p, err := cp.Parse(mainConf, opts(full))
	nd.Assert(err == nil, "error returned")
	p2, err := cp.Parse(mainConf, opts(without))
	nd.Assert(err == nil, "error returned")
	nd.Show("errors", payloadErrs(p.Errors))
	if len(p.Errors) == len(p2.Errors) && !strings.HasPrefix(bad, "ig") {
		return // it was accepted
	}
	a, b := tree(p.Config[0].Parsed, false, false), tree(p2.Config[0].Parsed, false, false)
	nd.Show("tree", a)
	nd.Show("expected", b)
	if strings.HasPrefix(bad, "ig") {
		if k == 3 {
			return // an entry like any other
		}
		nd.Assert(len(p.Errors) == len(p2.Errors), "an ignored statement gives an error")
		nd.Assert(a == b, "an ignored statement changes something else")
		nd.Cover("ignored")
		return
	}
	nd.Assert(len(p.Errors) == len(p2.Errors)+1, "more than one error for a statement")
	if strings.HasPrefix(bad, "include") && contains([]string{"no such file"}, what(p.Errors[0].Error)) {
		return // the statement stays, without included files
	}
	nd.Assert(a == b, "a rejected statement changes something else")
	nd.Cover("rejected")
}

// wholeStatement tells whether full is without plus exactly one statement after pre, as far as the reference
// tokens go.
func wholeStatement(pre, full, without string) bool {
	r := &ref{check: accept}
	a := r.parse(full, nil)
	r2 := &ref{check: accept}
	b := r2.parse(without, nil)
	if len(r.errs) > 0 || len(r2.errs) > 0 {
		return false
	}
	// the statement is k places into the innermost open block
	return removeOne(a, b)
}

// removeOne tells whether a is b with one more statement somewhere.
func removeOne(a, b []rnode) bool {
	if len(a) == len(b)+1 {
		for i := range a {
			c := append(append([]rnode{}, a[:i]...), a[i+1:]...)
			if refTree(c, false) == refTree(b, false) {
				return true
			}
		}
		return false
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if refTree(a[i:i+1], false) != refTree(b[i:i+1], false) {
			return refTree(a[i+1:], false) == refTree(b[i+1:], false) && a[i].name == b[i].name && removeOne(a[i].block, b[i].block)
		}
	}
	return false
}

// P03_Content: the content of a rejected and of an ignored block: 5 (thorough: 6) characters of every class.
func P03_Content() {
	name := []string{"x", "i", "x a", "map $a $b {b"}[nd.Pick(4)]
	s := "a{" + name + " {" + nd.StrIn(tiered(4, 6), "x{};\"'\\#\n") + "} c;}d;"
	if strings.HasPrefix(name, "map") {
		s += "}"
	}
	r := &ref{comments: true, ignore: []string{"i"}, check: rules{lookup: []func(string) ([]uint, bool){notX}, unknown: true}.check}
	nd.Show("text", s)
	compareRef(s, r, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, ParseComments: true, DirectiveSources: []cp.MatchFunc{notX}, IgnoreDirectives: r.ignore, ErrorOnUnknownDirectives: true})
	nd.Cover("end")
}

// P03_Scaled: a number of rejected statements, or rejected content of a size or depth, next to any constant of the code.
func P03_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(600, 5000))
	var s string
	switch nd.Pick(4) {
	case 0:
		s = strings.Repeat("x;a;", n)
	case 1:
		s = "a;x {" + strings.Repeat("a;", n) + "}b;"
	case 2:
		nd.Assume(n <= 300)
		s = "a {x" + strings.Repeat(" {a", n) + ";" + strings.Repeat("}", n) + "b;}c;"
	case 3:
		s = "a;i" + strings.Repeat(" x", n) + ";b;"
	}
	r := &ref{ignore: []string{"i"}, check: rules{lookup: []func(string) ([]uint, bool){notX}, unknown: true}.check, maps: true}
	want := r.parse(s, nil)
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, DirectiveSources: []cp.MatchFunc{notX}, IgnoreDirectives: r.ignore, ErrorOnUnknownDirectives: true})
	nd.Assert(err == nil, "error returned")
	nd.Assert(payloadErrs(p.Errors) == refErrs(r.errs), "errors differ")
	nd.Assert(tree(p.Config[0].Parsed, true, false) == refTree(want, true), "tree differs")
	nd.Cover("end")
}
