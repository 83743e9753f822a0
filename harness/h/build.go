package h

import (
	"bytes"
	"strings"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["B01_Alpha"] = B01_Alpha
	All["B01_Words"] = B01_Words
	All["B01_If"] = B01_If
	All["B01_Tree"] = B01_Tree
	All["B01_Combined"] = B01_Combined
	All["B01_Names"] = B01_Names
	All["B01_Scaled"] = B01_Scaled
	All["B02_Value"] = B02_Value
	All["B02_Bytes"] = B02_Bytes
	All["B02_Place"] = B02_Place
	All["B02_If"] = B02_If
	All["B02_Plain"] = B02_Plain
	All["B02_Names"] = B02_Names
	All["B02_Scaled"] = B02_Scaled
	All["B03_Layout"] = B03_Layout
	All["B03_Comments"] = B03_Comments
	All["B03_Depth"] = B03_Depth
	All["B03_Header"] = B03_Header
}

// build gives the text of directives.
func build(ds cp.Directives, o *cp.BuildOptions) string {
	var b bytes.Buffer
	err := cp.Build(&b, cp.Config{Parsed: ds}, o)
	nd.Assert(err == nil, "cannot build")
	return b.String()
}

// joined joins comments recorded for the same line, which are built on the same line.
func joined(ds cp.Directives) cp.Directives {
	out := cp.Directives{}
	for _, d := range ds {
		e := *d
		if d.Block != nil {
			e.Block = joined(d.Block)
		}
		if n := len(out); n > 0 && d.IsComment() && out[n-1].IsComment() && out[n-1].Line == d.Line && out[n-1].File == d.File {
			out[n-1].Comment = comment(*out[n-1].Comment + " #" + *d.Comment)
			continue
		}
		out = append(out, &e)
	}
	return out
}

func lenient(s string, lo cp.LexOptions) (*cp.Payload, error) {
	return cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, SingleFile: true, ParseComments: true, DirectiveSources: []cp.MatchFunc{nothingKnown}, LexOptions: lo})
}

// roundTrip parses, builds, parses, builds and parses.
func roundTrip(s string) {
	nd.Show("text", s)
	p, err := lenient(s, cp.LexOptions{})
	nd.Assert(err == nil, "error")
	if len(p.Errors) > 0 {
		return
	}
	rebuilt(p)
}

// rebuilt builds the first file of a payload, parses, builds and parses.
func rebuilt(p *cp.Payload) {
	t := tree(joined(p.Config[0].Parsed), false, false)
	o := &cp.BuildOptions{}
	s2 := build(p.Config[0].Parsed, o)
	nd.Show("built", s2)
	p2, err := lenient(s2, cp.LexOptions{})
	nd.Assert(err == nil && len(p2.Errors) == 0, "the built text does not parse")
	t2 := tree(p2.Config[0].Parsed, false, false)
	nd.Show("tree", t)
	nd.Show("tree of the built text", t2)
	nd.Assert(t == t2, "the built text has another tree")
	p3, err := lenient(build(p2.Config[0].Parsed, o), cp.LexOptions{})
	nd.Assert(err == nil && len(p3.Errors) == 0, "the text built again does not parse")
	nd.Assert(tree(p3.Config[0].Parsed, false, false) == tree(joined(p2.Config[0].Parsed), false, false), "the text built again has another tree")
	nd.Cover("end")
}

// B01_Alpha: 6 (thorough: 7) characters of every class, with comments, at the top and within a map-like block.
func B01_Alpha() {
	if nd.Pick(2) == 1 {
		roundTrip("map $a $b {" + nd.StrIn(tiered(4, 5), "a;\"#\\$\n") + "}\n")
		return
	}
	roundTrip(nd.StrIn(tiered(5, 6), "a{};\"'# \n\\$"))
}

// B01_Words: an argument of 3 (thorough: 4) characters with special meaning in one of 6 frames, quoted or not.
func B01_Words() {
	w := nd.StrIn(tiered(3, 4), "a${}\\\"'n#;")
	f := [][2]string{{"a ", ";"}, {"a \"", "\";"}, {"a '", "';"}, {"a ${", "} b;"}, {"", " b;"}, {"\"", "\" {b;}"}}[nd.Pick(6)]
	roundTrip(f[0] + w + f[1])
}

// B01_If: the arguments of if: 5 (thorough: 6) characters.
func B01_If() {
	roundTrip("if" + nd.StrIn(tiered(5, 6), "( )a\"'\\") + "{b;}\n")
}

// B01_Tree: up to 2 (thorough: 3) statements nested up to 2 deep with arguments of 6 forms, one arbitrary, and 1 (thorough: 2) arbitrary separators
// among which comments.
func B01_Tree() {
	g := &gen{fuel: 1, seps: tiered(1, 2), stmts: tiered(2, 3)}
	g.list(2)
	roundTrip(g.text)
}

// B01_Combined: a file of 3 and 2 (thorough: 4 and 3) characters around an include of one of 3 (thorough: 4), combined while parsing or afterwards,
// at the top or in a block.
func B01_Combined() {
	m := nd.StrIn(tiered(3, 4), "a;#\n") + "\ninclude b;" + nd.StrIn(tiered(2, 3), "#\n;a") + "\n"
	if nd.Pick(2) == 1 {
		m = "x {#" + m + "}"
	}
	v := oneFile(m)
	v.add("/etc/nginx/b", nd.StrIn(tiered(3, 4), "#\na;"))
	nd.Show("text", m)
	nd.Show("included", v.texts[1])
	o := &cp.ParseOptions{Open: v.open, ParseComments: true, DirectiveSources: []cp.MatchFunc{nothingKnown}}
	o.CombineConfigs = nd.Pick(2) == 1
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	if len(p.Errors) > 0 {
		return
	}
	if !o.CombineConfigs {
		p, err = p.Combined()
		nd.Assert(err == nil, "cannot combine")
	}
	rebuilt(p)
}

// B01_Names: every string constant of the code as name, argument and block name, quoted and not, in 6 frames.
func B01_Names() {
	n := nd.CodeStr()
	w := quoteArg(n)
	if nd.Pick(2) == 1 {
		w = n
	}
	t := []string{w + " a;", "a " + w + " b;c;", w + " {a;}b;", w + " " + w + "{c " + w + ";}", "map $a $b {" + w + " a;" + "b " + w + ";}", "a {#" + n + "\n}", "types{" + w + " a b;}"}
	roundTrip(t[nd.Pick(len(t))])
}

// B01_Scaled: a number of statements, arguments, levels, characters or comments next to any constant of the code.
func B01_Scaled() {
	nd.MaxSteps(800_000_000)
	n := nd.CodeInt(1, tiered(300, 2500))
	var s string
	switch nd.Pick(7) {
	case 0:
		s = strings.Repeat("a;", n)
	case 1:
		s = "a" + strings.Repeat(" b", n) + ";"
	case 2:
		nd.Assume(n <= 300)
		s = strings.Repeat("a{", n) + "b;" + strings.Repeat("}c;", n)
	case 3:
		s = strings.Repeat("a", n) + " \"" + strings.Repeat("b\n", n) + "\";"
	case 4:
		s = strings.Repeat("#a\n", n) + "b;" + strings.Repeat("#c\n", n)
	case 5:
		s = "a \"" + strings.Repeat("\\\\", n) + "\";b '" + strings.Repeat("\"", n) + "';"
	case 6:
		s = "if (" + strings.Repeat("a ", n) + ") {b;}"
	}
	roundTrip(s)
}

// expressible tells whether configuration text can express a value: it is valid UTF-8 without carriage returns, it
// does not end within an escape, and some quote does not stand escaped in it.
func expressible(v string) bool {
	if !utf8.ValidString(v) {
		return false
	}
	dq, sq, esc := false, false, false
	for i := 0; i < len(v); i++ {
		c := v[i]
		if c == '\r' {
			return false
		}
		if esc {
			dq, sq = dq || c == '"', sq || c == '\''
			esc = false
			continue
		}
		esc = c == '\\'
	}
	return !esc && !(dq && sq) || asWord(v)
}

// asWord tells whether a value is a single unquoted token when written as it is.
func asWord(v string) bool {
	ts := refLex(v + ";")
	return len(ts) == 2 && ts[0].err == "" && !ts[0].quoted && ts[0].val == v && ts[1].val == ";" && !strings.HasPrefix(v, "#")
}

// exact builds directives and compares the tokens with the expected ones.
func exact(ds cp.Directives, want []string) {
	s := build(ds, &cp.BuildOptions{})
	nd.Show("built", s)
	var got []string
	for _, t := range lexStr(s) {
		if t.Error != nil {
			nd.Fail("the built text has a lexical error")
		}
		v := t.Value
		if !t.IsQuoted && (v == "{" || v == "}" || v == ";") {
			v = " " + v
		}
		if !t.IsQuoted && strings.HasPrefix(v, "#") {
			v = " comment " + v
		}
		got = append(got, v)
	}
	nd.Assert(len(got) == len(want), "more or fewer tokens")
	for i := range got {
		nd.Assert(got[i] == want[i], "another value")
	}
	nd.Cover("end")
}

// B02_Value: any value of up to 4 (thorough: 5) characters of every class as an argument between others and as a name.
func B02_Value() {
	v := nd.StrIn(nd.Pick(tiered(5, 6)), "a{}; \"'\\$#\n")
	nd.Assume(expressible(v))
	nd.Show("value", v)
	if nd.Pick(2) == 0 {
		exact(cp.Directives{{Directive: "d", Args: []string{"b", v, "c"}}}, []string{"d", "b", v, "c", " ;"})
		return
	}
	exact(cp.Directives{{Directive: v, Args: []string{"c"}, Block: cp.Directives{}}}, []string{v, "c", " {", " }"})
}

// B02_Bytes: any value of 3 (thorough: 4) arbitrary bytes, and any white space or other character of 2 or 3 bytes.
func B02_Bytes() {
	v := nd.Str(tiered(2, 3))
	switch nd.Pick(3) {
	case 1:
		v = "a" + nd.StrIn(1, "\xc2\xe1\xe2\xe3\xc3") + nd.StrIn(1, "\x80\x85\xa0\x9a\x81\xaf") + nd.StrIn(1, "\x80\xa8\xa9\xaf\x8a\x9fa")
	case 2:
		v = "a" + nd.StrIn(1, "\xc2\xc3") + nd.StrIn(1, "\x80\x85\xa0\x9a\x81\xaf")
	}
	nd.Assume(expressible(v))
	nd.Show("value", v)
	exact(cp.Directives{{Directive: "d", Args: []string{v}, Line: 1}}, []string{"d", v, " ;"})
}

// B02_Place: 2 values of 2 characters and one of 1 in 8 kinds of trees (nested, next to comments, in a map-like block).
func B02_Place() {
	v := nd.StrIn(2, "a{};\"'\\$# \n")
	w := nd.StrIn(1, "a}\"#\n$")
	nd.Assume(expressible(v))
	nd.Show("v", v)
	nd.Show("w", w)
	d := func(n string, as ...string) *cp.Directive { return &cp.Directive{Directive: n, Args: as, Line: 3} }
	b := func(x *cp.Directive, in ...*cp.Directive) *cp.Directive {
		x.Block = append(cp.Directives{}, in...)
		return x
	}
	c := &cp.Directive{Directive: "#", Args: []string{}, Comment: comment("k {;\""), Line: 3}
	c2 := &cp.Directive{Directive: "#", Args: []string{}, Comment: comment(""), Line: 9}
	k := " comment #k {;\""
	switch nd.Pick(8) {
	case 0:
		exact(cp.Directives{d("x", v), d(w, v)}, []string{"x", v, " ;", w, v, " ;"})
	case 1:
		exact(cp.Directives{b(d("x", v), d(v), d(w))}, []string{"x", v, " {", v, " ;", w, " ;", " }"})
	case 2:
		exact(cp.Directives{d("x", v), c, d(w)}, []string{"x", v, " ;", k, w, " ;"})
	case 3:
		exact(cp.Directives{b(d(v, w), c, c2, b(d(w, v))), d("z")}, []string{v, w, " {", k, " comment #", w, v, " {", " }", " }", "z", " ;"})
	case 4:
		x := d(v, w)
		x.IsMapBlockParameter = true
		exact(cp.Directives{b(d("map", "$a", "$b"), x, c)}, []string{"map", "$a", "$b", " {", v, w, " ;", k, " }"})
	case 5:
		exact(cp.Directives{c, d(v), c2, c}, []string{k, v, " ;", " comment #", k})
	case 6:
		exact(cp.Directives{d("#", v), d("#c", w)}, []string{"#", v, " ;", "#c", w, " ;"})
	case 7:
		x := d("if", v, w)
		x.IsMapBlockParameter = true
		exact(cp.Directives{b(d("types"), x)}, []string{"types", " {", "if", v, w, " ;", " }"})
	}
}

// B02_If: the arguments of if: 2 values of up to 3 and 1 characters; read back by the parser, which takes the parentheses off.
func B02_If() {
	v := nd.StrIn(nd.Pick(4), "a()\"'\\ $#{")
	w := nd.StrIn(1, "a) \"\n}")
	nd.Assume(expressible(v))
	nd.Show("v", v)
	nd.Show("w", w)
	as := [][]string{{v}, {v, w}, {w, v}}[nd.Pick(3)]
	// what no text can express: the parentheses take the white space next to them and empty strings with them
	first, last := as[0], as[len(as)-1]
	nd.Assume(first != "" && last != "")
	s := build(cp.Directives{{Directive: "if", Args: as, Block: cp.Directives{{Directive: "b", Args: []string{}}}}}, &cp.BuildOptions{})
	nd.Show("built", s)
	p, err := lenient(s, cp.LexOptions{})
	nd.Assert(err == nil && len(p.Errors) == 0, "the built text does not parse")
	nd.Assert(len(p.Config[0].Parsed) == 1, "more than one statement")
	d := p.Config[0].Parsed[0]
	nd.Assert(d.Directive == "if" && len(d.Block) == 1 && d.Block[0].Directive == "b", "another tree")
	nd.Assert(len(d.Args) == len(as), "more or fewer arguments")
	for i := range as {
		nd.Assert(d.Args[i] == as[i], "another value")
	}
	nd.Cover("end")
}

// B02_Plain: values of up to 4 (thorough: 5) characters none of which is special are written as they are.
func B02_Plain() {
	v := nd.StrIn(1+nd.Pick(tiered(4, 5)), "a9$.=/(*)~^|,:%-_+?[]@!&<>")
	nd.Show("value", v)
	// a dollar sign at the end might start an expansion with what follows
	nd.Assume(v[len(v)-1] != '$' && !strings.Contains(v, "$$"))
	nd.Assert(cp.Enquote(v) == v, "quoted although that is not needed")
	nd.Assert(build(cp.Directives{{Directive: "d", Args: []string{v}}}, &cp.BuildOptions{}) == "d "+v+";", "not written as it is")
	nd.Cover("end")
}

// B02_Names: every string constant of the code, alone and within quotes, backslashes and braces, as name and argument.
func B02_Names() {
	n := nd.CodeStr()
	v := []string{n, "{" + n, n + "}", "\"" + n, n + "'", n + " " + n, "#" + n, "\\n" + n, n + "\\$", "${" + n + "}", n + "\n"}[nd.Pick(11)]
	nd.Assume(expressible(v))
	nd.Show("value", v)
	if nd.Pick(2) == 0 || v == "if" {
		exact(cp.Directives{{Directive: "d", Args: []string{v, v}}}, []string{"d", v, v, " ;"})
		return
	}
	exact(cp.Directives{{Directive: v, Args: []string{v}, Block: cp.Directives{}}}, []string{v, v, " {", " }"})
}

// B02_Scaled: values with a number of characters next to any constant of the code, special ones at both ends.
func B02_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(2100, 20000))
	c := []string{"a", "\\\\", "\"", "'", "{", "$", " "}[nd.Pick(7)]
	v := nd.StrIn(1, "a\"' ") + strings.Repeat(c, n) + nd.StrIn(1, "a\"'\n")
	nd.Show("value", v)
	exact(cp.Directives{{Directive: "d", Args: []string{v}}}, []string{"d", v, " ;"})
}

// extText is what is written by the external builder in use, if any, for a directive.
var extText = func(*cp.Directive) string { return "" }

// layout is the reference for what is built: every statement on a line of its own, indented by its depth.
func layout(ds cp.Directives, depth int, indent string, first bool, last *cp.Directive) string {
	s := ""
	for i, d := range ds {
		ext := extText(d)
		if d.IsComment() && d.Line == last.Line && d.File == last.File {
			s += " #" + *d.Comment
			continue
		}
		if i > 0 || !first {
			s += "\n"
		}
		s += strings.Repeat(indent, depth)
		if ext != "" {
			s += ext
			continue
		}
		last = d
		if d.IsComment() {
			s += "#" + *d.Comment
			continue
		}
		s += cp.Enquote(d.Directive)
		for _, a := range d.Args {
			s += " " + a
		}
		if d.Block == nil {
			s += ";"
			continue
		}
		s += " {" + layout(d.Block, depth+1, indent, false, d) + "\n" + strings.Repeat(indent, depth) + "}"
	}
	return s
}

// anyTree is a tree of up to n directives and comments, up to 3 deep, on arbitrary lines.
func anyTree(n *int, depth int, line *int) cp.Directives {
	out := cp.Directives{}
	for *n > 0 {
		k := nd.Pick(4)
		if k == 0 {
			break
		}
		*n--
		switch nd.Pick(3) {
		case 1:
			*line++
		case 2: // as in what an include is replaced by
			*line = 1
		}
		switch k {
		case 1:
			out = append(out, &cp.Directive{Directive: "d", Args: []string{"w"}, Line: *line})
		case 2:
			out = append(out, &cp.Directive{Directive: "#", Args: []string{}, Comment: comment("c"), Line: *line})
		case 3:
			d := &cp.Directive{Directive: "b", Args: []string{}, Line: *line}
			if depth > 0 {
				d.Block = anyTree(n, depth-1, line)
			}
			out = append(out, d)
		}
	}
	return out
}

const docHeader = "# This config was built from JSON using NGINX crossplane.\n# If you encounter any bugs please report them here:\n# https://github.com/nginxinc/crossplane/issues\n\n"

// sameLayout compares what is built with the reference for given options.
func sameLayout(ds cp.Directives, o *cp.BuildOptions) {
	w := o.Indent
	if w == 0 {
		w = 4
	}
	ind := strings.Repeat(" ", w)
	if o.Tabs {
		ind = "\t"
	}
	want := layout(ds, 0, ind, true, &cp.Directive{})
	if o.Header {
		want = docHeader + want
	}
	got := build(ds, o)
	nd.Show("built", got)
	nd.Show("expected", want)
	nd.Assert(got == want, "layout differs")
	nd.Cover("end")
}

// B03_Layout: any tree of up to 3 (thorough: 4) directives, blocks and comments on any lines, under indentation widths 0, 1, 2, 3, 4,
// 8 and 50, with and without tabs and header: exact text.
func B03_Layout() {
	n, line := tiered(3, 4), 0
	ds := anyTree(&n, 3, &line)
	sameLayout(ds, &cp.BuildOptions{Indent: []int{0, 1, 2, 3, 4, 8, 50}[nd.Pick(7)], Tabs: nd.Pick(2) == 1, Header: nd.Pick(2) == 1})
}

// B03_Comments: text with comments in 5 places, parsed, and built under options that must not change the tokens.
func B03_Comments() {
	s := "a" + nd.StrIn(tiered(4, 5), "b{};#\n \"")
	nd.Show("text", s)
	p, err := lenient(s, cp.LexOptions{})
	nd.Assert(err == nil, "error")
	if len(p.Errors) > 0 {
		return
	}
	ds := p.Config[0].Parsed
	ref := showToksNoLine(lexStr(build(ds, &cp.BuildOptions{})))
	for _, o := range []*cp.BuildOptions{{Indent: 1}, {Tabs: true}, {Indent: 99}, {Indent: 7, Tabs: true}} {
		nd.Assert(showToksNoLine(lexStr(build(ds, o))) == ref, "tokens differ")
	}
	h := build(ds, &cp.BuildOptions{Header: true})
	nd.Assert(h == docHeader+build(ds, &cp.BuildOptions{}), "the header changes the rest")
	nd.Cover("end")
}

func showToksNoLine(ts []cp.NgxToken) string {
	s := ""
	for _, t := range ts {
		s += "|" + q(t.Value) + btoa(t.IsQuoted)
		if t.Error != nil {
			s += "!"
		}
	}
	return s
}

// B03_Depth: nesting of up to 120 (thorough: 300) levels of two siblings each and of every number next to a constant of the code, under 6 widths
// and tabs.
func B03_Depth() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(0, tiered(120, 300))
	ds := cp.Directives{}
	for i := 0; i <= n; i++ {
		ds = cp.Directives{{Directive: "a", Args: []string{"b"}, Line: 3}, {Directive: "b", Args: []string{}, Block: ds, Line: 4}}
	}
	k := nd.Pick(9)
	w := []int{0, 1, 2, 4, 8, 33, 50, 99, 100}[k]
	sameLayout(ds, &cp.BuildOptions{Indent: w, Tabs: nd.Pick(2) == 1})
}

// B03_Header: widths next to any constant of the code up to 210, with tabs and header, for nesting of 0 to 3.
func B03_Header() {
	w := nd.CodeInt(0, 210)
	ds := cp.Directives{{Directive: "a", Args: []string{"b"}, Line: 3}}
	for n := nd.Pick(4); n > 0; n-- {
		ds = cp.Directives{{Directive: "b", Args: []string{}, Block: ds, Line: 4}, {Directive: "#", Args: []string{}, Comment: comment("x"), Line: 4}}
	}
	sameLayout(ds, &cp.BuildOptions{Indent: w, Tabs: nd.Pick(2) == 1, Header: nd.Pick(2) == 1})
}
