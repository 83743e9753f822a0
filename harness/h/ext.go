package h

import (
	"bytes"
	"strings"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["X01_Lex"] = X01_Lex
	All["X01_Names"] = X01_Names
	All["X01_Parse"] = X01_Parse
	All["X01_Build"] = X01_Build
	All["X01_Scaled"] = X01_Scaled
	All["X01_Errors"] = X01_Errors
	All["P05_Lexers"] = P05_Lexers
}

// extLexer reads up to a "!", which it drops, and gives what it read as an argument after its tag. A "?" makes it fail, unbuffered or
// not; it goes on afterwards.
type extLexer struct {
	tag string
	err error
	n   int // capacity of its channel
}

func (x *extLexer) Lex(s *cp.SubScanner, name string) <-chan cp.NgxToken {
	c := make(chan cp.NgxToken, x.n)
	go func() {
		defer close(c)
		v, line := "", s.Line()
		for s.Scan() {
			switch t := s.Text(); t {
			case "!":
				c <- cp.NgxToken{Value: x.tag + name + ":" + v, Line: line, IsQuoted: strings.Contains(v, "\"")}
				c <- cp.NgxToken{Value: ";", Line: s.Line()}
				return
			case "?":
				if x.err != nil {
					c <- cp.NgxToken{Error: x.err, Line: s.Line()}
				} else {
					line := s.Line()
					c <- cp.NgxToken{Error: &cp.ParseError{What: "ext", Line: &line}, Line: line}
				}
			default:
				v += t
			}
		}
	}()
	return c
}

// lex is the reference for an extLexer.
func (x *extLexer) lex(l *luaRef) func(name, text string, line int) {
	return func(name, text string, line int) {
		v, at := "", line
		for p := 0; p < len(text); {
			r, n := utf8.DecodeRuneInString(text[p:])
			t := text[p : p+n]
			p += n
			if r == '\n' {
				line++
			}
			switch t {
			case "!":
				l.out = append(l.out, tok{val: x.tag + name + ":" + v, line: at, quoted: strings.Contains(v, "\"")}, tok{val: ";", line: line})
				l.add(text[p:], line, true)
				return
			case "?":
				l.out = append(l.out, tok{line: line, err: "ext"})
				return
			}
			v += t
		}
		if l.depth > 0 {
			l.out = append(l.out, tok{line: line, err: "unexpected end of file, expecting \"}\""})
		}
	}
}

// twoLexers registers a lexer for ext and e2 and another one for e2 and "e x".
func twoLexers(n int) (cp.LexOptions, *luaRef) {
	a, b := &extLexer{tag: "A", n: n}, &extLexer{tag: "B", n: n}
	l := &luaRef{}
	l.names = func(s string) bool { return s == "ext" || s == "e2" || s == "e x" }
	la, lb := a.lex(l), b.lex(l)
	l.lex = func(name, text string, line int) {
		if name == "ext" {
			la(name, text, line)
			return
		}
		lb(name, text, line)
	}
	return cp.LexOptions{Lexers: []cp.RegisterLexer{cp.LexWithLexer(a, "ext", "e2"), cp.LexWithLexer(b, "e2", "e x")}}, l
}

func compareExt(s string, n int) *luaRef {
	o, l := twoLexers(n)
	nd.Show("text", s)
	got := lexAll(strings.NewReader(s), o)
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	l.add(s, 1, true)
	nd.Show("tokens", showToks(got))
	nd.Show("expected", showRef(l.out))
	nd.Assert(len(got) == len(l.out), "number of tokens differs")
	for i, t := range got {
		w := l.out[i]
		nd.Assert((t.Error != nil) == (w.err != ""), "error differs")
		if w.err != "" {
			nd.Assert(what(t.Error) == w.err && lineOf(t.Error) == w.line, "error differs")
			continue
		}
		nd.Assert(t.Value == w.val, "token value differs")
		nd.Assert(t.IsQuoted == w.quoted && t.Line == w.line, "line or quoting differs")
	}
	nd.Cover("end")
	return l
}

// X01_Lex: 1 (thorough: 2) characters of every class before the name of an external lexer and 3 after it, then its end and 1 more, for lexers with
// and without room in their channels.
func X01_Lex() {
	s := nd.StrIn(tiered(1, 2), "a;{#\"$\\\n ") + []string{"ext", "\"e x\"", "e2"}[nd.Pick(3)] + nd.StrIn(3, "a{;\"!?\n\r\\ ") + "!" + nd.StrIn(1, "b;{}\n ") + "c;ext d!e;"
	compareExt(s, 2*nd.Pick(2))
}

// X01_Names: the name of an external lexer in 26 places, of which it counts in some.
func X01_Names() {
	n := []string{"ext", "e2", "\"e2\"", "'e x'", "e\\xt", "extr", "Ext", "e"}[nd.Pick(8)]
	f := []string{"% b!c;", "a % b;", "a {% b!c;}", "{% b!c;}", "% {b!c;", "%;a;", "a;%{!}b;", "#% b!\nc;", "% b! % c!d;", "a #x\n % b;", "a \"%\" b!;", "%", "% ", "a{b;}% c!}", "a{% b", "\n%\n\nb\n!\n%\t!c;",
		"\"q\" % b!;", "'' % b!c;", "${v} % b!;", "\"q\"% b!;", "a{} 'q' % b!;", "$v{% b!;", "a 'q';% b!c;", "\\a % b!c;", "\u00e9 % b!;", "\"\"{% !b;}"}
	compareExt(strings.ReplaceAll(f[nd.Pick(len(f))], "%", n), 2*nd.Pick(2))
}

// X01_Parse: the tree of 2 (thorough: 3) statements among 9, some for external lexers, nested in a block of one of 3 kinds.
func X01_Parse() {
	stmts := []struct{ text, tree string }{{"ext a{b!", "ext(Aext:a{b)"}, {"e2 a\n;!", "e2(Be2:a\n;)"}, {"b ext c;", "b(ext,c)"}, {"ext{}!", "ext(Aext:{})"}, {"c {ext }!}", "c()[ext(Aext:})]"},
		{"'e x' x!", "e x(Be x: x)"}, {"#ext\n", ""}, {"d {}", "d()[]"}, {"ext\n#a!", "ext(Aext:#a)"}}
	s, want := "", ""
	for i := 0; i < tiered(2, 3); i++ {
		x := stmts[nd.Pick(len(stmts))]
		s += x.text
		want += x.tree
	}
	k := nd.Pick(3)
	s = []string{"", "x {", "http { server {"}[k] + s + []string{"", "}", "}}"}[k]
	want = []string{"", "x()[", "http()[server()["}[k] + want + []string{"", "]", "]]"}[k]
	lo, _ := twoLexers(nd.Pick(2))
	nd.Show("text", s)
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, LexOptions: lo, DirectiveSources: []cp.MatchFunc{nothingKnown}})
	nd.Assert(err == nil && len(p.Errors) == 0, "error")
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	var show func(ds cp.Directives) string
	show = func(ds cp.Directives) string {
		t := ""
		for _, d := range ds {
			t += d.Directive + "(" + strings.Join(d.Args, ",") + ")"
			if d.Block != nil {
				t += "[" + show(d.Block) + "]"
			}
		}
		return t
	}
	got := show(p.Config[0].Parsed)
	nd.Show("expected", want)
	nd.Show("tree", got)
	nd.Assert(got == want, "tree differs")
	nd.Cover("end")
}

// extBuilder writes its tag and the parts of the directive.
type extBuilder struct{ tag string }

func (x extBuilder) Build(d *cp.Directive) string {
	return x.tag + d.Directive + "|" + strings.Join(d.Args, "|") + itoa(len(d.Block)) + "\n %"
}

// extTree is a tree of up to n directives of 6 names, all of one line.
func extTree(n *int, depth, line int) cp.Directives {
	out := cp.Directives{}
	for *n > 0 && nd.Pick(2) == 1 {
		*n--
		d := &cp.Directive{Directive: []string{"ext", "e2", "e x", "other", "", "e\\"}[nd.Pick(6)], Args: []string{"w"}, Line: line}
		if depth > 0 && nd.Pick(2) == 1 {
			d.Block = extTree(n, depth-1, line)
		}
		if nd.Pick(2) == 1 {
			out = append(out, d, &cp.Directive{Directive: "#", Args: []string{}, Comment: comment("c"), Line: line + nd.Pick(2)})
			continue
		}
		out = append(out, d)
	}
	return out
}

// X01_Build: any tree of up to 2 (thorough: 3) directives of 6 names and comments, 3 of which have external builders (one registered twice), by Build, BuildInto and
// BuildFiles of 2 files, twice.
func X01_Build() {
	a, b := extBuilder{"A"}, extBuilder{"B"}
	extText = func(d *cp.Directive) string {
		switch d.Directive {
		case "ext":
			return a.Build(d)
		case "e2", "e x", "":
			return b.Build(d)
		}
		return ""
	}
	o := &cp.BuildOptions{Builders: []cp.RegisterBuilder{cp.BuildWithBuilder(a, "ext", "e2"), cp.BuildWithBuilder(b, "e2", "e x", "")}}
	n := tiered(2, 3)
	ds := extTree(&n, 2, nd.Pick(2))
	want := layout(ds, 0, "    ", true, &cp.Directive{})
	nd.Show("expected", want)
	p := cp.Payload{Config: []cp.Config{{File: "a", Parsed: ds}, {File: "b", Parsed: ds}}}
	for i := 0; i < 2; i++ {
		var got []string
		switch nd.Pick(2) {
		case 0:
			var w bytes.Buffer
			nd.Assert(cp.Build(&w, p.Config[0], o) == nil, "cannot build")
			got = append(got, w.String())
		case 1:
			sc := &cp.StringsCreator{}
			nd.Assert(cp.BuildInto(&p, sc, o) == nil && len(sc.Files) == 2, "cannot build")
			for _, f := range sc.Files {
				got = append(got, strings.TrimSuffix(f.String(), "\n"))
			}
		}
		for _, g := range got {
			nd.Show("built", g)
			nd.Assert(g == want, "text differs")
		}
	}
	nd.Cover("end")
}

// X01_Scaled: external content, a number of statements for external lexers or of registered names, of a size next to any constant of the code.
func X01_Scaled() {
	nd.MaxSteps(800_000_000)
	n := nd.CodeInt(1, tiered(2100, 20000))
	switch nd.Pick(3) {
	case 0:
		nd.Assume(n <= 2100)
		compareExt("ext "+strings.Repeat(nd.StrIn(1, "a\n;{"), n)+"!b;", nd.Pick(2))
	case 1:
		nd.Assume(n <= 60)
		compareExt(strings.Repeat("ext a! e2 b!", n)+"b;", nd.Pick(2))
	case 2:
		nd.Assume(n <= 1000)
		names := []string{}
		for i := 0; i < n; i++ {
			names = append(names, "x"+itoa(i))
		}
		lx := &extLexer{tag: "T"}
		var got []cp.NgxToken
		got = lexAll(strings.NewReader("x"+itoa(n-1)+" v!y;"), cp.LexOptions{Lexers: []cp.RegisterLexer{cp.LexWithLexer(lx, names...)}})
		nd.Assert(len(got) == 5 && got[1].Value == "Tx"+itoa(n-1)+":v" && got[3].Value == "y", "a registered name is overlooked")
	}
	nd.Cover("end")
}

// lateErr is an error of an external lexer with or without a place.
func lateErr() error {
	line := 7
	file := "f"
	es := []error{&cp.ParseError{What: "w"}, &cp.ParseError{What: "w", Line: &line}, &cp.ParseError{What: "w", File: &file}, cp.ErrPrematureLexEnd, &wrapped{&cp.ParseError{What: "w"}}, &wrapped{cp.ErrPrematureLexEnd}}
	if k := nd.Pick(len(es) + 1); k < len(es) {
		return es[k]
	}
	return failure()
}

// X01_Errors: one of 29 errors of an external lexer that goes on after it for up to 2 tokens, in 4 places: the tokens before the error and the
// error itself are passed on, nothing else, and the lexer is not left waiting.
func X01_Errors() {
	e := lateErr()
	x := &extLexer{tag: "A", err: e, n: nd.Pick(3)}
	s := []string{"ext ?", "a b; ext c?", "a {ext\n?", "a {\"ext\" \n?"}[nd.Pick(4)] + []string{"", "!", "?!", "x?b?c!", "! d; }", "?!}"}[nd.Pick(6)]
	nd.Show("text", s)
	got := lexAll(strings.NewReader(s), cp.LexOptions{Lexers: []cp.RegisterLexer{cp.LexWithLexer(x, "ext")}})
	nd.Show("tokens", showToks(got))
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	n := []int{1, 4, 3, 3}[map[byte]int{'x': 0, ' ': 1}[s[1]]]
	if s[0] == 'a' && s[2] == '{' {
		n = 3
	}
	nd.Assert(len(got) == n+1, "number of tokens differs")
	nd.Assert(got[n].Error == e, "another error")
	for _, g := range got[:n] {
		nd.Assert(g.Error == nil, "error made up")
	}
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, LexOptions: cp.LexOptions{Lexers: []cp.RegisterLexer{cp.LexWithLexer(x, "ext")}}})
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	nd.Assert(err == nil && p.Status == "failed" && len(p.Errors) == 1, "not one error")
	nd.Cover("end")
}

// P05_Lexers: one of 29 errors of an external lexer in the main or an included file, after other errors or none.
func P05_Lexers() {
	e := lateErr()
	s := []string{"", "nope;\n", "include a;", "include a;nope;\n"}[nd.Pick(4)]
	a := "ext b!"
	if nd.Pick(2) == 1 {
		s += "http { ext c? }"
	} else {
		a = "daemon x;\next ?"
		s += "include a;"
	}
	nd.Show("text", s+"|"+a)
	agree(func() *cp.ParseOptions {
		o := stmtOptions(s, a)
		// what is found first adds its place to the error
		f := e
		if pe, ok := e.(*cp.ParseError); ok {
			c := *pe
			f = &c
		}
		o.LexOptions.Lexers = []cp.RegisterLexer{cp.LexWithLexer(&extLexer{tag: "A", err: f}, "ext")}
		return o
	})
}
