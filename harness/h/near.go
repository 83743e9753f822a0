package h

import (
	"bytes"
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["P02_Near"] = P02_Near
	All["P04_NearBlock"] = P04_NearBlock
	All["P04_NearName"] = P04_NearName
	All["P06_Near"] = P06_Near
	All["P07_Near"] = P07_Near
	All["P09_Near"] = P09_Near
	All["P11_NearBlock"] = P11_NearBlock
	All["B02_Near"] = B02_Near
	All["L07_Near"] = L07_Near
	All["X01_Near"] = X01_Near
	All["X01_NearBuild"] = X01_NearBuild
}

// letter is any letter, digit, '_', '-', '.' or byte of a longer character.
func letter() string {
	b := nd.Byte()
	nd.Assume(nd.Or(nd.Or(nd.And(b >= '_', b <= 'z'), nd.And(b >= '@', b <= 'Z')), nd.Or(nd.And(b >= '-', b <= '9'), b >= 0x80)))
	return string([]byte{b})
}

// nearly is n with one character replaced, added or removed anywhere, or n as it is.
func nearly(n string) string {
	i := nd.Pick(len(n) + 1)
	k := nd.Pick(3)
	nd.Assume(k == 1 || i < len(n))
	switch k {
	case 0:
		n = n[:i] + letter() + n[i+1:]
	case 1:
		n = n[:i] + letter() + n[i:]
	case 2:
		n = n[:i] + n[i+1:]
	}
	nd.Assume(n != "")
	return n
}

// P02_Near: "if" and a name like it with parentheses around the arguments, in a block and as one.
func P02_Near() {
	n := nearly("if")
	mirrored("http {"+n+[]string{" ( a b )", " (a)", "(a)", " ()", " a"}[nd.Pick(5)]+[]string{" {c;}", ";"}[nd.Pick(2)]+"}", &ref{comments: true})
	nd.Cover("end")
}

// P04_NearBlock: a directive with one mask of 64 arbitrary bits in a block whose name, or the name of the block around it, is that of a known
// context but for one character.
func P04_NearBlock() {
	c := refContexts[nd.Pick(len(refContexts))].path
	nd.Assume(len(c) > 0)
	path := append([]string{}, c...)
	i := nd.Pick(len(path))
	path[i] = nearly(path[i])
	nd.Assume(!contains(mapKinds, path[i]))
	ru := rules{lookup: []func(string) ([]uint, bool){masked(uint(nd.Uint64()))}}
	checked(openCtx(path)+"dd a;"+strings.Repeat("}", len(path)), ru, nil)
}

// P04_NearName: a directive known by the name of the statement but for one character, in one or two sources; unknown ones are rejected.
func P04_NearName() {
	n := nearly("dd")
	nd.Assume(n != "if")
	ru := rules{unknown: true, lookup: []func(string) ([]uint, bool){masked(0x40000 | 1)}}
	if nd.Pick(2) == 1 {
		ru.lookup = append(ru.lookup, func(s string) ([]uint, bool) { return []uint{0x40000 | 2}, s == "Dd" })
	}
	checked(n+[]string{";", " a;"}[nd.Pick(2)], ru, nil)
}

// P06_Near: statements and blocks named like one that is ignored but for one character, among others.
func P06_Near() {
	g := []string{"aB", "server_name", "if"}[nd.Pick(3)]
	n := nearly(g)
	mirrored("x {"+n+[]string{";", " (b) {c;}", " " + g + ";"}[nd.Pick(3)]+" d;}", &ref{ignore: []string{"zz", g}, comments: true})
	nd.Cover("end")
}

// P07_Near: a statement named like include but for one character is none; with a name, a pattern or nothing after it.
func P07_Near() {
	n := nearly("include")
	arg := []string{" b", " *", "", " b c"}[nd.Pick(4)]
	s := "x {" + n + arg + ";}"
	nd.Show("text", s)
	v := oneFile(s)
	v.add("/etc/nginx/b", "c;")
	globs := 0
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: v.open, Glob: func(string) ([]string, error) {
		globs++
		return []string{"/etc/nginx/b"}, nil
	}, DirectiveSources: []cp.MatchFunc{nothingKnown}})
	nd.Assert(err == nil, "error")
	if n == "include" {
		nd.Assert(len(p.Config) == 1+btoi(arg != ""), "an include is not followed")
		nd.Cover("include")
		return
	}
	nd.Assert(len(v.opened) == 1 && globs == 0 && len(p.Config) == 1 && len(p.Errors) == 0, "an ordinary statement is taken for an include")
	d := p.Config[0].Parsed[0].Block[0]
	nd.Assert(d.Directive == lexStr(n)[0].Value && d.Includes == nil && !d.IsInclude() && strings.Join(d.Args, " ") == strings.TrimSpace(arg), "tree differs")
	nd.Cover("end")
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// P09_Near: combining keeps statements named like include but for one character, whatever they list.
func P09_Near() {
	n := nearly("include")
	d := &cp.Directive{Directive: n, Args: []string{"b"}, Line: 1, Includes: []int{nd.Pick(3)}}
	p := &cp.Payload{Config: []cp.Config{{File: "a", Parsed: cp.Directives{d}}, {File: "b", Parsed: cp.Directives{{Directive: "c", Args: []string{}, Line: 1}}}}}
	q, err := p.Combined()
	if n == "include" {
		nd.Assert((err == nil) == (d.Includes[0] == 1) && (err != nil || tree(q.Config[0].Parsed, true, true) == tree(p.Config[1].Parsed, true, true)), "an include is not replaced")
		nd.Cover("include")
		return
	}
	nd.Assert(err == nil && tree(q.Config[0].Parsed, true, true) == tree(p.Config[0].Parsed, true, true), "an ordinary statement is taken for an include")
	nd.Cover("end")
}

// P11_NearBlock: a block named like one of the map-like ones but for one character, with entries and what would be none.
func P11_NearBlock() {
	k := nearly(mapKinds[nd.Pick(len(mapKinds))])
	mapLike("http {" + k + " $a $b {" + []string{"c;", "c d;", "c d e;", "b c;", "c {d;}", "if (c) {d;}"}[nd.Pick(6)] + "} e;}")
}

// B02_Near: only "if" gets parentheses: a name like it with 0 to 2 arguments.
func B02_Near() {
	n := nearly("if")
	args := []string{"a", "b"}[:nd.Pick(3)]
	d := &cp.Directive{Directive: n, Args: args, Line: 1, IsMapBlockParameter: nd.Pick(2) == 1}
	want := n + strings.TrimRight(" "+strings.Join(args, " "), " ") + ";"
	if n == "if" && !d.IsMapBlockParameter {
		want = "if (" + strings.Join(args, " ") + ");"
		nd.Cover("if")
	}
	if nd.Pick(2) == 1 {
		d.Block = cp.Directives{}
		want = want[:len(want)-1] + " {\n}"
	}
	var b bytes.Buffer
	nd.Assert(cp.Build(&b, cp.Config{File: "f", Parsed: cp.Directives{d}}, &cp.BuildOptions{}) == nil, "cannot build")
	nd.Show("text", b.String())
	nd.Show("expected", want)
	var got []string
	for _, t := range lexAll(strings.NewReader(b.String()), cp.LexOptions{}) {
		got = append(got, t.Value)
	}
	var exp []string
	for _, t := range refLex(want) {
		exp = append(exp, t.val)
	}
	nd.Assert(strings.Join(got, "\x00") == strings.Join(exp, "\x00"), "other tokens")
	nd.Cover("end")
}

// L07_Near: a statement named like one of 4 Lua directives but for one character, with an unbalanced brace in a string.
func L07_Near() {
	n := []string{"content_by_lua_block", "set_by_lua_block", "init_by_lua_block", "balancer_by_lua_block"}[nd.Pick(4)]
	compareLua(nearly(n) + " $x {'}'} b;")
}

// X01_Near: the name of an external lexer but for one character, plain or quoted.
func X01_Near() {
	n := nearly([]string{"ext", "e2", "e x"}[nd.Pick(3)])
	if strings.ContainsAny(n, " ") || nd.Pick(2) == 1 {
		n = "\"" + n + "\""
	}
	compareExt("a;"+n+" b;!c;d{!", 0)
}

// X01_NearBuild: a directive with the name of an external builder but for one character, by Build, BuildInto and BuildFiles.
func X01_NearBuild() {
	n := nearly("ext")
	d := &cp.Directive{Directive: n, Args: []string{"w"}, Line: 1}
	want := n + " w;"
	if n == "ext" {
		want = "Aext|w0\n %"
	}
	o := &cp.BuildOptions{Builders: []cp.RegisterBuilder{cp.BuildWithBuilder(extBuilder{"A"}, "Ext", "ext", "ext_")}}
	nd.Assume(n != "Ext" && n != "ext_")
	c := cp.Config{File: "f", Parsed: cp.Directives{d}}
	var b bytes.Buffer
	w := io.Writer(&b)
	nd.Assert(cp.Build(w, c, o) == nil, "cannot build")
	nd.Show("text", b.String())
	nd.Assert(b.String() == want || b.String() == cp.Enquote(n)+" w;" && n != "ext", "a builder is used for another directive, or is not used")
	sc := &cp.StringsCreator{}
	nd.Assert(cp.BuildInto(&cp.Payload{Config: []cp.Config{c}}, sc, o) == nil && sc.Files[0].String() == b.String()+"\n", "BuildInto differs")
	nd.Cover("end")
}
