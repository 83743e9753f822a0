package h

import (
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["P02_Mix"] = P02_Mix
	All["P03_Mix"] = P03_Mix
	All["P05_Mix"] = P05_Mix
	All["P06_Mix"] = P06_Mix
	All["P10_Mix"] = P10_Mix
	All["B01_Mix"] = B01_Mix
	All["L03_Mix"] = L03_Mix
	All["P02_Deep"] = P02_Deep
	All["P03_Deep"] = P03_Deep
	All["P05_Deep"] = P05_Deep
	All["P06_Deep"] = P06_Deep
	All["P10_Deep"] = P10_Deep
	All["P11_Deep"] = P11_Deep
	All["B01_Deep"] = B01_Deep
	All["P09_Deep"] = P09_Deep
	All["C01_Files"] = C01_Files
	All["P02_Lua"] = P02_Lua
	All["P03_Lua"] = P03_Lua
	All["P05_Lua"] = P05_Lua
	All["P06_Lua"] = P06_Lua
	All["P10_Lua"] = P10_Lua
	All["C01_Lua"] = C01_Lua
}

// Statements in which comments, quotes, lines, blocks, rejected and ignored names come together. Those that begin with x are unknown, those named i
// ignored.
var mixGood = []string{"b;", "b 'c\nd' e;", "b #c\n d;", "b a #c\n #d\n{", "b {", "}", "map $a $b {c d;", "# e\n", "b;# f\n", "if (b) {", "if ( c #g\n ) {d;}", "types {\nx y #c\n;}", "\"i j\" k;", "b {} c\n{\n}", "b '{' \"}\" '#c' ;", "b ${c} \\; d\\ e;\r\n", "'' {}"}

var mixBad = []string{"x;", "x a 'b c' {\n d;}", "x #c\n;", "x a #c\n{b; #d\n}", "x {x {y;} #e\n}", "i;", "i #c\n{b;}", "i a {\n#c\n x '}';}", "x #c\n y z}", "i b}", "geo {a #c\n b c;d #e\n;", "'x' {'}'}", "match m {a {b #c\n;} d;", "i '{';", "x '}' {\"{\" ;}#f\n", "x a\n b\n #c\n {\n{"}

func mix(n int, list []string) string {
	pre := []string{"", "http {\n#a\n", "a { map $a $b {\n", "a b #c\n {"}[nd.Pick(4)]
	s := pre + anyStmts(n, list)
	if nd.Pick(2) == 1 {
		s += strings.Repeat("}", strings.Count(pre, "{"))
	}
	nd.Show("text", s)
	return s
}

func mixAll() []string { return append(append([]string{}, mixGood...), mixBad...) }

func mixRef(comments bool) *ref {
	return &ref{comments: comments, ignore: []string{"i"}, check: rules{lookup: []func(string) ([]uint, bool){notX}, unknown: true}.check}
}

func mixOptions(s string, comments bool) *cp.ParseOptions {
	return &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, ParseComments: comments, DirectiveSources: []cp.MatchFunc{notX}, IgnoreDirectives: []string{"i"}, ErrorOnUnknownDirectives: true}
}

// P02_Mix: 2 (thorough: 3) of 17 statements with comments, line ends and quotes among their arguments and before their blocks, in 4 places, closed or not; comments read or not.
func P02_Mix() {
	c := nd.Pick(2) == 1
	s := mix(tiered(2, 3), mixGood)
	compareRef(s, mixRef(c), mixOptions(s, c))
}

// P03_Mix: 2 (thorough: 3) of 33 statements, 16 of them with rejected or ignored parts, with comments and quotes anywhere, in 4 places, closed or not; comments read or not.
func P03_Mix() {
	c := nd.Pick(2) == 1
	s := mix(1, mixBad)
	if nd.Tier() > 0 {
		s += anyStmts(1, mixAll())
	}
	s += anyStmts(1, mixAll())
	compareRef(s, mixRef(c), mixOptions(s, c))
}

// P05_Mix: the same statements in both error modes.
func P05_Mix() {
	s := mix(tiered(2, 3), mixAll())
	c := nd.Pick(2) == 1
	agree(func() *cp.ParseOptions { return mixOptions(s, c) })
}

// commentsOnly checks that comments are all that reading them adds.
func commentsOnly(s string) {
	p, err := cp.Parse(mainConf, mixOptions(s, true))
	nd.Assert(err == nil, "error returned")
	p2, err := cp.Parse(mainConf, mixOptions(s, false))
	nd.Assert(err == nil, "error returned")
	nd.Assert(payloadErrs(p.Errors) == payloadErrs(p2.Errors), "errors differ")
	a, b := tree(noComments(p.Config[0].Parsed), true, true), tree(p2.Config[0].Parsed, true, true)
	nd.Assert(a == b, "trees differ")
	// and that they are all there
	r := mixRef(true)
	r.maps = true
	want := r.parse(s, nil)
	nd.Assert(tree(p.Config[0].Parsed, true, false) == refTree(want, true), "tree differs")
	nd.Cover("end")
}

// ignoreOnly checks that ignored statements are all that is left out.
func ignoreOnly(s string) {
	// the comments among the arguments of an ignored statement go with it
	o := mixOptions(s, false)
	o.IgnoreDirectives = nil
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	p2, err := cp.Parse(mainConf, mixOptions(s, false))
	nd.Assert(err == nil, "error returned")
	if len(p.Errors) == 0 {
		nd.Assert(len(p2.Errors) == 0, "ignoring adds errors")
		nd.Assert(tree(without(p.Config[0].Parsed, "i", ""), true, true) == tree(p2.Config[0].Parsed, true, true), "trees differ")
		nd.Cover("end")
	}
}

// P06_Mix: the same statements with and without comments, and with and without ignoring some.
func P06_Mix() {
	s := mix(tiered(2, 3), mixAll())
	if nd.Pick(2) == 1 {
		commentsOnly(s)
	} else {
		ignoreOnly(s)
	}
}

// P10_Mix: the same statements, in the main or an included file, combined or not.
func P10_Mix() {
	s := mix(2, mixAll())
	m, inc := s, "b;"
	if nd.Pick(2) == 1 {
		m, inc = "include inc;x;", s
	} else {
		m = "include inc;" + m
	}
	o := mixOptions(m, true)
	v := oneFile(m)
	v.add("/etc/nginx/inc", inc)
	o.Open = v.open
	o.CombineConfigs = nd.Pick(2) == 1
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	consistent(p, o.CombineConfigs)
}

// B01_Mix: 2 (thorough: 3) of 17 statements with comments, line ends and quotes among their arguments and before their blocks, in 4 places, built and read again.
func B01_Mix() { roundTrip(mix(tiered(2, 3), mixGood)) }

// L03_Mix: the lines of the tokens of the same statements.
func L03_Mix() { compareLex(mix(tiered(2, 3), mixAll()), cmpLines|cmpErrors) }

// deep is a text of a number of nested blocks next to any constant of the code, with statements and comments at every depth, of which some are
// rejected or ignored if bad.
func deep(bad bool) string {
	n := nd.CodeInt(1, tiered(40, 300))
	nd.Show("depth", itoa(n))
	open, end := "b {#c\n d #e\n f; ", "#g\n} h; #i\n"
	if bad {
		open += []string{"x #c\n {x; #d\n} ", "i {\n#d\n i; {;", "map $a {a #c\n {b;} c d;} i #c\n; x;"}[nd.Pick(3)]
		open = strings.ReplaceAll(open, "{;", "}")
		end = []string{"#g\n x} h; #i\n", "i #j\n} h; #i\n", end}[nd.Pick(3)]
	}
	mid := []string{"", "k 'l\nm' {n;}", "#o\n"}[nd.Pick(3)]
	return strings.Repeat(open, n) + mid + strings.Repeat(end, n)
}

// P02_Deep: statements and comments, also among arguments, in blocks nested as deep as any constant of the code says.
func P02_Deep() {
	nd.MaxSteps(400_000_000)
	c := nd.Pick(2) == 1
	s := deep(false)
	compareRef(s, mixRef(c), mixOptions(s, c))
}

// P03_Deep: the same with rejected and ignored statements and blocks at every depth.
func P03_Deep() {
	nd.MaxSteps(400_000_000)
	c := nd.Pick(2) == 1
	s := deep(true)
	compareRef(s, mixRef(c), mixOptions(s, c))
}

// P05_Deep: the same in both error modes.
func P05_Deep() {
	nd.MaxSteps(400_000_000)
	s := deep(true)
	agree(func() *cp.ParseOptions { return mixOptions(s, true) })
}

// P06_Deep: the same with and without comments, and with and without ignoring some.
func P06_Deep() {
	nd.MaxSteps(400_000_000)
	s := deep(nd.Pick(2) == 1)
	if nd.Pick(2) == 1 {
		commentsOnly(s)
	} else {
		ignoreOnly(strings.ReplaceAll(s, "d #e", "i #e"))
	}
}

// P10_Deep: the same in the main file or one that it includes in a block.
func P10_Deep() {
	nd.MaxSteps(400_000_000)
	m, inc := deep(true), "x;"
	if nd.Pick(2) == 1 {
		m, inc = "a {x; include inc; x;", m
	}
	o := mixOptions(m, false)
	v := oneFile(m)
	v.add("/etc/nginx/inc", inc)
	o.Open = v.open
	o.CombineConfigs = nd.Pick(2) == 1
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	consistent(p, o.CombineConfigs)
}

// P11_Deep: map-like blocks of 3 kinds with comments, special and wrong entries in blocks nested as deep as any constant of the code says, or with
// as many entries.
func P11_Deep() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(40, 300))
	nd.Show("number", itoa(n))
	k := []string{"geo $a {ranges; proxy_recursive a; b c; #d\n include e; f #g\n h;", "map $a $b {volatile; hostnames a; b c; #d\n listen e; f {g;}", "geoip2 f {auto_reload 5m; auto_reload; $a b=c d; #d\n b;"}[nd.Pick(3)]
	var s string
	if nd.Pick(2) == 0 {
		s = strings.Repeat("a {", n) + k + "}" + strings.Repeat("}", n)
	} else {
		s = k + strings.Repeat("b 'c';#d\n", n) + "e;}"
	}
	mapLike(s)
}

// B01_Deep: statements and comments in blocks nested as deep as any constant of the code says, built and read again.
func B01_Deep() {
	nd.MaxSteps(400_000_000)
	roundTrip(deep(false))
}

// P09_Deep: includes in blocks nested as deep as any constant of the code says, whose file again includes one that deep in its blocks: combining
// while parsing against combining afterwards and against the text put together.
func P09_Deep() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(40, 300))
	nd.Show("depth", itoa(n))
	m := strings.Repeat("a {b; ", n) + "%" + strings.Repeat("c;} ", n)
	in1 := "d;" + strings.Repeat("e {", n) + "^" + strings.Repeat("}", n) + "f;"
	in2 := "g; h {i;}"
	all := strings.ReplaceAll(strings.ReplaceAll(m, "%", in1), "^", in2)
	v := oneFile(strings.ReplaceAll(m, "%", "include one;"))
	v.add("/etc/nginx/one", strings.ReplaceAll(in1, "^", "include two;"))
	v.add("/etc/nginx/two", in2)
	o := mixOptions("", false)
	o.Open = v.open
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil && len(p.Errors) == 0, "error")
	p, err = p.Combined()
	nd.Assert(err == nil && len(p.Config) == 1, "error")
	want, err := cp.Parse(mainConf, mixOptions(all, false))
	nd.Assert(err == nil && len(want.Errors) == 0, "error")
	nd.Assert(tree(p.Config[0].Parsed, false, false) == tree(want.Config[0].Parsed, false, false), "content differs")
	o.CombineConfigs = true
	p, err = cp.Parse(mainConf, o)
	nd.Assert(err == nil && len(p.Config) == 1, "error")
	nd.Assert(tree(p.Config[0].Parsed, false, false) == tree(want.Config[0].Parsed, false, false), "content differs")
	nd.Cover("end")
}

// C01_Files: up to 3 (thorough: 4) of 9 statements that include files by name or pattern, also again, from each other, missing, themselves or failing to
// parse or read, in both error modes, combined or not: every file opened is closed, once, and no goroutine is left.
func C01_Files() {
	list := []string{"include inc;", "include inc2;", "include gone;", "include i*;", "include none*;", "include nginx.conf;", "a {include inc;}", "x;", "b"}
	m := anyStmts(nd.Pick(tiered(3, 4)), list) + "c;" + anyStmts(1, list)
	in2 := []string{"d;", "include inc;", "include inc;e", "include inc2;", "}", "x;include gone;"}[nd.Pick(6)]
	nd.Show("text", m+"|"+in2)
	v := oneFile(m)
	v.add("/etc/nginx/inc", "i {j;}")
	v.add("/etc/nginx/inc2", in2)
	open, opened := 0, 0
	o := mixOptions(m, false)
	o.Open = func(p string) (io.ReadCloser, error) {
		f, err := v.open(p)
		if err != nil {
			return nil, err
		}
		open++
		opened++
		return &watched{r: f, open: &open}, nil
	}
	o.Glob = func(p string) ([]string, error) {
		if p == "/etc/nginx/i*" {
			return []string{"/etc/nginx/inc2", "/etc/nginx/inc", "/etc/nginx/gone2"}[:2+nd.Pick(2)], nil
		}
		return nil, nil
	}
	b := nd.Pick(4)
	o.StopParsingOnError, o.CombineConfigs = b&1 != 0, b&2 != 0
	_, err := cp.Parse(mainConf, o)
	nd.Assert(open == 0, "a file is left open")
	nd.Assert(opened > 0, "nothing was read")
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	if err != nil {
		nd.Cover("error")
	} else {
		nd.Cover("fine")
	}
}

// luaForm is a text in which Lua blocks stand for %, and the same text with their content in quotes.
func luaForm(list []string) (text, plain string) {
	body := []string{"", "x", "a {b;} \"}\" c", "'{' --x;\n#", "\n{\n}\n", "{}" + nd.StrIn(1, "a;#\n$ ")}[nd.Pick(6)]
	name := []string{"content_by_lua_block", "set_by_lua_block $v", "log_by_lua_block"}[nd.Pick(3)]
	f := []string{"%", "\n#c\n%#d\n", "http {% %} b;"}[nd.Pick(3)] + anyStmts(tiered(1, 2), list) + []string{"%", "b;", ""}[nd.Pick(3)]
	text = strings.ReplaceAll(f, "%", name+[]string{" ", "", "\n"}[nd.Pick(3)]+"{"+body+"}")
	plain = text
	for _, s := range []string{" ", "", "\n"} {
		plain = strings.ReplaceAll(plain, name+s+"{"+body+"}", name+s+" "+quoteArg(body)+";")
	}
	nd.Show("text", text)
	return text, plain
}

var luaForms = []string{"b {% c;}", "x {% %}", "x;%", "i {a {%}} c;", "x a #c\n {%} d;", "i;% i {", "content_by_lua_block;", "if (a) {%}", "b {x {%} % i {%} c;}", "map $a $b {c d;}%"}

func luaOptions(s string) *cp.ParseOptions {
	o := mixOptions(s, true)
	o.LexOptions = luaLex()
	return o
}

// asQuoted checks that blocks of Lua are read like quoted strings.
func asQuoted(mk func(string) *cp.ParseOptions) {
	a, b := luaForm(luaForms)
	p, err := cp.Parse(mainConf, mk(a))
	nd.Assert(err == nil, "error returned")
	o := mk(b)
	o.LexOptions = cp.LexOptions{}
	q, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	nd.Show("errors", payloadErrs(p.Errors))
	nd.Show("expected", payloadErrs(q.Errors))
	nd.Assert(payloadErrs(p.Errors) == payloadErrs(q.Errors), "errors differ")
	nd.Assert(tree(p.Config[0].Parsed, true, false) == tree(q.Config[0].Parsed, true, false), "tree differs")
	nd.Cover("end")
}

// P02_Lua: Lua blocks with 6 contents (an arbitrary character among them), of 3 directives, in 3 forms and among 1 (thorough: 2) of 10 other statements: the tree is that
// of quoted strings.
func P02_Lua() {
	asQuoted(func(s string) *cp.ParseOptions {
		o := luaOptions(s)
		o.DirectiveSources, o.IgnoreDirectives = []cp.MatchFunc{nothingKnown}, nil
		o.ErrorOnUnknownDirectives = false
		return o
	})
}

// P03_Lua: the same with rejected and ignored statements, also the Lua directives themselves.
func P03_Lua() {
	k := nd.Pick(3)
	asQuoted(func(s string) *cp.ParseOptions {
		o := luaOptions(s)
		switch k {
		case 1:
			o.IgnoreDirectives = []string{"i", "content_by_lua_block", "set_by_lua_block"}
		case 2:
			o.DirectiveSources = []cp.MatchFunc{func(n string) ([]uint, bool) {
				if strings.HasSuffix(n, "_by_lua_block") {
					return nil, false
				}
				return notX(n)
			}}
		}
		return o
	})
}

// P05_Lua: the same in both error modes.
func P05_Lua() {
	s, _ := luaForm(luaForms)
	agree(func() *cp.ParseOptions { return luaOptions(s) })
}

// P06_Lua: the same with and without comments, and with and without ignoring i or a Lua directive.
func P06_Lua() {
	s, _ := luaForm(luaForms)
	o := luaOptions(s)
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	o.ParseComments = false
	q, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	nd.Assert(payloadErrs(p.Errors) == payloadErrs(q.Errors), "errors differ")
	nd.Assert(tree(noComments(p.Config[0].Parsed), true, true) == tree(q.Config[0].Parsed, true, true), "trees differ")
	if len(q.Errors) == 0 {
		o.IgnoreDirectives = []string{"i", "content_by_lua_block"}
		r, err := cp.Parse(mainConf, o)
		nd.Assert(err == nil && len(r.Errors) == 0, "ignoring adds errors")
		nd.Assert(tree(without(q.Config[0].Parsed, "content_by_lua_block", ""), true, true) == tree(r.Config[0].Parsed, true, true), "trees differ")
	}
	nd.Cover("end")
}

// P10_Lua: the statuses and errors of the same.
func P10_Lua() {
	s, _ := luaForm(append(append([]string{}, luaForms...), "set_by_lua_block {;", "content_by_lua_block x;", "% }"))
	p, err := cp.Parse(mainConf, luaOptions(s))
	nd.Assert(err == nil, "error returned")
	consistent(p, false)
}

// C01_Lua: the same with a channel that holds nothing: no goroutine is left behind, and the result is the same.
func C01_Lua() {
	s, _ := luaForm(append(append([]string{}, luaForms...), "set_by_lua_block {;", "content_by_lua_block x;b;c;", "% }b;"))
	s += "b;c;d;"
	o := luaOptions(s)
	o.StopParsingOnError = nd.Pick(2) == 1
	want := parseFull(s, *o)
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	got := ""
	withCap(nd.Pick(2), func() { got = parseFull(s, *o) })
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind with a small channel")
	nd.Assert(got == want, "the result depends on the capacity")
	nd.Cover("end")
}
