package h

import (
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["L02_Bytes"] = L02_Bytes
	All["L02_Alpha"] = L02_Alpha
	All["L02_Context"] = L02_Context
	All["L02_Scaled"] = L02_Scaled
	All["L03_Alpha"] = L03_Alpha
	All["L03_Context"] = L03_Context
	All["L03_Lua"] = L03_Lua
	All["L03_Scaled"] = L03_Scaled
	All["L03_Parse"] = L03_Parse
	All["L04_Alpha"] = L04_Alpha
	All["L04_Context"] = L04_Context
	All["L04_Scaled"] = L04_Scaled
	All["L01_Bytes"] = L01_Bytes
	All["L01_Alpha"] = L01_Alpha
	All["L01_Lua"] = L01_Lua
	All["L01_Scaled"] = L01_Scaled
}

// lexAlpha has one representative of every character class the grammar distinguishes.
const lexAlpha = "a${};\"'\\# \n"

// Which parts of the token stream a property is about.
const (
	cmpValues = 1 << iota
	cmpLines
	cmpErrors
)

// compareLex lexes s and compares with the reference.
func compareLex(s string, parts int) {
	nd.Show("text", s)
	got := lexStr(s)
	want := refLex(s)
	nd.Show("tokens", showToks(got))
	nd.Show("expected", showRef(want))
	ge, we := "", ""
	gl, wl := 0, 0
	if n := len(got); n > 0 && got[n-1].Error != nil {
		ge = what(got[n-1].Error)
		gl = lineOf(got[n-1].Error)
		nd.Assert(parts&cmpErrors == 0 || got[n-1].Value == "", "the error token has a value")
		got = got[:n-1]
	}
	if n := len(want); n > 0 && want[n-1].err != "" {
		we = want[n-1].err
		wl = want[n-1].line
		want = want[:n-1]
	}
	if parts&cmpErrors != 0 {
		nd.Assert(ge == we, "lexical error differs")
		// everything before the error is delivered
		nd.Assert(we == "" || len(got) == len(want), "tokens before the error are missing or added")
	}
	if parts&cmpLines != 0 {
		nd.Assert(ge == "" || ge != we || gl == wl, "line of the error is wrong")
	}
	for i, t := range got {
		nd.Assert(t.Error == nil, "error token before the end")
		if i >= len(want) {
			break
		}
		if parts&cmpValues != 0 {
			nd.Assert(t.Value == want[i].val, "token value differs")
			nd.Assert(t.IsQuoted == want[i].quoted, "quoted flag differs")
		}
		if parts&cmpLines != 0 {
			nd.Assert(t.Line == want[i].line, "line differs")
		}
	}
	if parts&cmpValues != 0 {
		nd.Assert(len(got) == len(want), "number of tokens differs")
	}
	switch {
	case we != "":
		nd.Cover("error")
	case len(want) > 2:
		nd.Cover("several tokens")
	}
}

func tiered(quick, thorough int) int {
	if nd.Tier() > 0 {
		return thorough
	}
	return quick
}

// contexts put the symbolic text behind and before typical text.
func inContext() string {
	pre := []string{"a \"x\ny\" ", "a b;\n# c\n", "a${", "a {\r\n", "a 'q\\'", "\\\n", "\u00e9\n", "a \"\\\"\" {b;}", "a ${b}c{d e;}\n", "a\\\nb;\n"}
	post := []string{"", " z\n;}", "\"'\n", "}\ny;"}
	return pre[nd.Pick(len(pre))] + nd.StrIn(tiered(2, 3), lexAlpha) + post[nd.Pick(len(post))]
}

// scaled has a size taken from the constants of the code under test.
func scaled() string {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(2, tiered(2100, 70000))
	tail := nd.StrIn(1, lexAlpha) + "b;"
	switch nd.Pick(7) {
	case 0:
		return strings.Repeat("w", n) + tail
	case 1:
		return "a \"" + strings.Repeat("w", n) + "\"" + tail
	case 2:
		return "#" + strings.Repeat("w", n) + "\n" + tail
	case 3:
		return strings.Repeat("\n", n) + "a" + tail
	case 4:
		return "a" + strings.Repeat(" b", n) + tail
	case 5:
		return strings.Repeat("a;", n) + tail
	}
	nd.Assume(n <= 300)
	return strings.Repeat("a{", n) + tail + strings.Repeat("}", n)
}

// L02_Bytes: 3 (thorough: 4) arbitrary bytes.
func L02_Bytes() { compareLex(nd.Str(tiered(3, 4)), cmpValues) }

// L02_Alpha: 5 (thorough: 6) characters, one of each class the grammar distinguishes.
func L02_Alpha() { compareLex(nd.StrIn(tiered(5, 6), lexAlpha), cmpValues) }

// L02_Context: 2 (thorough: 3) characters of any class inside 40 surroundings.
func L02_Context() { compareLex(inContext(), cmpValues) }

// L02_Scaled: words, strings, comments, blank lines, argument and statement counts and nesting of a size next to
// any constant of the code, with an arbitrary character after it.
func L02_Scaled() { compareLex(scaled(), cmpValues) }

// L03_Alpha: 5 (thorough: 6) characters, one of each class the grammar distinguishes.
func L03_Alpha() { compareLex(nd.StrIn(tiered(5, 6), "a$\n{};\"\\# \r"), cmpLines) }

// L03_Context: 2 (thorough: 3) characters of any class inside 40 surroundings.
func L03_Context() { compareLex(inContext(), cmpLines) }

// L03_Lua: the lines of tokens in and after a Lua block (also one with a variable) of 3 (thorough: 4) characters, with 2 before and after the brace.
func L03_Lua() {
	s := "a;\n" + []string{"content_by_lua_block", "set_by_lua_block $a"}[nd.Pick(2)] + nd.StrIn(2, " \n\r") + "{" + nd.StrIn(tiered(3, 4), "a\n\r\\'") + "}" + nd.StrIn(2, "\n#a") + "\nb 'c\n' d;"
	compareLua(s)
}

// L03_Scaled: sizes next to any constant of the code.
func L03_Scaled() { compareLex(scaled(), cmpLines) }

// L03_Parse: the lines of directives, comments and errors of parsed text, 4 (thorough: 5) characters behind 6 prefixes.
func L03_Parse() {
	pre := []string{"", "a \"x\ny\";\n", "b {\n#c\r\n", "x\n\ny;", "\n\n\nserver {\n", "l\\\nm\n"}
	s := pre[nd.Pick(len(pre))] + nd.StrIn(tiered(4, 5), "a{};\n#\"")
	nd.Show("text", s)
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, ParseComments: true})
	if err != nil {
		nd.Fail(err.Error())
	}
	// every directive has the line of the reference token it was made from, in order
	ts := refLex(s)
	i := 0
	var walk func(cp.Directives)
	walk = func(ds cp.Directives) {
		for _, d := range ds {
			if d.Comment != nil {
				ok := false
				for _, t := range ts {
					// comments among arguments are recorded with the statement
					ok = ok || !t.quoted && t.err == "" && strings.HasPrefix(t.val, "#") && (t.line == d.Line || t.line > d.Line) && t.val[1:] == *d.Comment
				}
				nd.Assert(ok, "comment has a wrong line")
				continue
			}
			for i < len(ts) && !(ts[i].val == d.Directive && ts[i].line == d.Line) {
				i++
			}
			nd.Assert(i < len(ts), "directive has a wrong line")
			i++
			walk(d.Block)
		}
	}
	walk(p.Config[0].Parsed)
	for _, e := range p.Errors {
		nd.Assert(e.Line != nil && lineOf(e.Error) == *e.Line, "error and record disagree about the line")
	}
	if n := len(ts); n > 0 && ts[n-1].err != "" && len(p.Errors) > 0 {
		last := p.Errors[len(p.Errors)-1]
		if what(last.Error) == ts[n-1].err {
			nd.Assert(*last.Line == ts[n-1].line, "lexical error has a wrong line")
			nd.Cover("lexical error")
		}
	}
	if len(p.Config[0].Parsed) > 0 {
		nd.Cover("directives")
	}
}

// L04_Alpha: 6 (thorough: 7) characters of the classes that matter for delimiters.
func L04_Alpha() { compareLex(nd.StrIn(tiered(6, 7), "a${};\"#\n"), cmpErrors) }

// L04_Context: 2 (thorough: 3) characters of any class inside 40 surroundings.
func L04_Context() { compareLex(inContext(), cmpErrors) }

// L04_Scaled: nesting and other sizes next to any constant of the code.
func L04_Scaled() { compareLex(scaled(), cmpErrors) }

// total lexes s, to see that it ends well.
func total(s string, lo cp.LexOptions) {
	nd.Show("text", s)
	ts := lexAll(strings.NewReader(s), lo)
	for i, t := range ts {
		nd.Assert(t.Error == nil || i == len(ts)-1, "tokens after an error")
	}
	nd.Assert(len(ts) <= 2*len(s)+2, "more tokens than the text has characters")
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	nd.Cover("end")
}

// L01_Bytes: 3 (thorough: 4) arbitrary bytes.
func L01_Bytes() { total(nd.Str(tiered(3, 4)), cp.LexOptions{}) }

// L01_Alpha: 5 (thorough: 6) characters, one of each class the grammar distinguishes, with the Lua extension.
func L01_Alpha() { total(nd.StrIn(tiered(5, 6), lexAlpha), luaLex()) }

// L01_Scaled: sizes next to any constant of the code.
func L01_Scaled() { total(scaled(), cp.LexOptions{}) }

// L01_Lua: 4 (thorough: 5) characters of any class after a Lua directive name.
func L01_Lua() {
	pre := []string{"content_by_lua_block", "set_by_lua_block", "set_by_lua_block $x", "a { content_by_lua_block {", "\"content_by_lua_block\"", "init_by_lua_block{\"x\"}"}
	total(pre[nd.Pick(len(pre))]+nd.StrIn(tiered(4, 5), "a{};\"'\\ \n"), luaLex())
}
