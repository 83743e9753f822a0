package h

import (
	"encoding/json"
	"errors"
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["E01_Text"] = E01_Text
	All["E01_Statement"] = E01_Statement
	All["E01_Entry"] = E01_Entry
	All["E01_End"] = E01_End
	All["E01_Cause"] = E01_Cause
	All["E01_Args"] = E01_Args
	All["E01_Names"] = E01_Names
	All["E01_Sources"] = E01_Sources
}

// E01_Text: the text of an error with any of 3 characters, a file or none, and one of 7 lines or none, and its JSON, alone and within a payload.
func E01_Text() {
	e := &cp.ParseError{What: nd.StrIn(2, "a% \"") + "w", Statement: "s", BlockCtx: "b"}
	want := e.What + " in (nofile)"
	if nd.Pick(2) == 1 {
		f := nd.StrIn(2, "a%:/")
		e.File = &f
		want = e.What + " in " + f
	}
	if k := nd.Pick(8); k > 0 {
		l := []int{0, 1, -1, 9, 10, 12345, 1 << 40}[k-1]
		e.Line = &l
		want += ":" + []string{"0", "1", "-1", "9", "10", "12345", "1099511627776"}[k-1]
	}
	got := e.Error()
	nd.Show("text", got)
	nd.Show("expected", want)
	nd.Assert(got == want, "another text")
	b, err := json.Marshal(e)
	s := ""
	nd.Assert(err == nil && json.Unmarshal(b, &s) == nil && s == want, "another text in JSON")
	p := cp.Payload{Errors: []cp.PayloadError{{File: "f", Error: e}}, Config: []cp.Config{{Errors: []cp.ConfigError{{Error: e}}}}}
	b, err = json.Marshal(p)
	nd.Assert(err == nil, "cannot be encoded")
	var v struct {
		Errors []struct{ Error string }
		Config []struct{ Errors []struct{ Error string } }
	}
	nd.Assert(json.Unmarshal(b, &v) == nil && v.Errors[0].Error == want && v.Config[0].Errors[0].Error == want, "another text in JSON")
	nd.Assert(errors.Unwrap(e) == nil, "a cause is made up")
	nd.Cover("end")
}

var errNoGlob = errors.New("bad pattern")

type badStmt struct{ text, what, stmt string }

var badStmts = []badStmt{
	{"nope a 'b c';", "unknown directive \"nope\"", "nope a b c"},
	{"nope {x {} y;}", "unknown directive \"nope\"", "nope"},
	{"mm;", "\"mm\" directive is not allowed here", "mm"},
	{"ee a\n b;", "invalid number of arguments in \"ee\" directive", "ee a b"},
	{"ff \"may be\";", "invalid value \"may be\" in \"ff\" directive, it must be \"on\" or \"off\"", "ff may be"},
	{"ee a {x;\nz {} y;}", "directive \"ee\" is not terminated by \";\"", "ee a"},
	{"bb a #k\n;", "directive \"bb\" has no opening \"{\"", "bb a"},
	{"xx a {}", "directive \"xx\"'s is not enclosed in parentheses", "xx a"},
	{"include;", "invalid number of arguments in \"include\" directive in FILE:LINE", "include"},
	{"include /gone/x;", "no such file", "include /gone/x"},
	{"include g*;", "bad pattern", "include g*"},
}

func badRules(n string) ([]uint, bool) {
	const all = mMain | mHTTP | mSrv | mLoc
	m := map[string]uint{"mm": mEvents | mAny, "ee": all | 0x2, "ff": all | mFlag, "bb": all | mBlock | 0x2, "xx": all | mBlock | mExpr | 0xfe, "include": all | 0x2 | mAny,
		"http": mMain | mBlock | mNoArgs, "server": mHTTP | mBlock | mNoArgs, "location": mSrv | mLoc | mBlock | 0x2, "ok": all | mAny, "content_by_lua_block": all | mAny, "set_by_lua_block": all | mAny}
	x, ok := m[n]
	return []uint{x}, ok
}

// named1 checks that an error says where it is and what is wrong.
func named1(err error, what, file string, line int, stmt, block string) {
	var pe *cp.ParseError
	nd.Assert(errors.As(err, &pe), "error of another kind")
	nd.Show("error", err.Error()+" | "+pe.Statement+" | "+pe.BlockCtx)
	what = strings.ReplaceAll(strings.ReplaceAll(what, "FILE", file), "LINE", itoa(line))
	nd.Show("expected", what+" in "+file+":"+itoa(line)+" | "+stmt+" | "+block)
	nd.Assert(pe.What == what, "the error says something else")
	nd.Assert(pe.File != nil && *pe.File == file, "the error names another file")
	nd.Assert(pe.Line != nil && *pe.Line == line, "the error names another line")
	nd.Assert(strings.TrimSpace(pe.Statement) == stmt, "the error names another statement")
	nd.Assert(pe.BlockCtx == block, "the error names another block")
	nd.Assert(err.Error() == what+" in "+file+":"+itoa(line), "another text")
}

// where is a place for a statement: text before it, the number of lines in there, what closes the blocks, and the innermost block.
func where() (pre string, line int, post, block string) {
	k := nd.Pick(5)
	pre = []string{"", "http {\n", "http { server {\n\n", "http {\n server {\nlocation /a {\nlocation /b {", "http{server{}} "}[k]
	post = []string{"", "}", "}}", "}}}}", ""}[k]
	block = []string{"main", "http", "server", "location", "main"}[k]
	pre += []string{"", "\n#c\n", "ok 'a\nb';", "ok \\\n;\r\n", "content_by_lua_block\n {\n'}'\n}\n", "set_by_lua_block $a {\n} "}[nd.Pick(6)]
	return pre, 1 + strings.Count(pre, "\n"), post, block
}

// E01_Statement: one of 11 rejected statements in 5 blocks, behind 6 texts of several lines (two with Lua blocks), in the main file or one that is included there, errors
// collected or not: the error names the file, line, statement and block, and what is wrong with it.
func E01_Statement() {
	b := badStmts[nd.Pick(len(badStmts))]
	pre, line, post, block := where()
	text, file := pre+b.text+post+"\n", mainConf
	v := oneFile(text)
	if nd.Pick(2) == 1 {
		p2 := []string{"", "\n\n", "ok;\nok '\n' b;"}[nd.Pick(3)]
		file, line = "/etc/nginx/inc", 1+strings.Count(p2, "\n")
		v = oneFile(pre + "include inc;" + post)
		v.add(file, p2+b.text)
		text = p2 + b.text
	}
	if strings.HasPrefix(b.text, "mm") && block == "main" {
		nd.Cover("main")
	}
	nd.Show("text", text)
	o := &cp.ParseOptions{Open: v.open, Glob: func(p string) ([]string, error) { return nil, errNoGlob }, ErrorOnUnknownDirectives: true, DirectiveSources: []cp.MatchFunc{badRules}}
	// the statements that are fine need no block to be known in
	o.StopParsingOnError = nd.Pick(2) == 1
	o.LexOptions = luaLex()
	p, err := cp.Parse(mainConf, o)
	if o.StopParsingOnError {
		nd.Assert(err != nil, "no error")
	} else {
		nd.Assert(err == nil && len(p.Errors) == 1, "not one error")
		err = p.Errors[0].Error
		nd.Assert(p.Errors[0].File == file && p.Errors[0].Line != nil && *p.Errors[0].Line == line, "recorded for another file or line")
	}
	named1(err, b.what, file, line, b.stmt, block)
	if strings.HasPrefix(b.text, "include /gone") {
		nd.Assert(errors.Is(err, errNotFound), "the cause is lost")
	}
	if strings.HasPrefix(b.text, "include g") {
		nd.Assert(errors.Is(err, errNoGlob), "the cause is lost")
	}
	nd.Cover("end")
}

// E01_Entry: a bad entry of a map-like block in 5 places.
func E01_Entry() {
	pre, line, post, _ := where()
	k := nd.Pick(4)
	kind := []string{"map", "geo", "types", "split_clients"}[k]
	e := []badStmt{{"a 'b c' d;", "invalid number of parameters", "a b c d"}, {"x;", "invalid number of parameters", "x"}, {"a b {c;}", "unexpected \"{\"", "a b"}}[nd.Pick(3)]
	nl := []string{"", "\n", " ok b;\n"}[nd.Pick(3)]
	if kind == "types" && e.text[1] == ' ' && e.text[2] == '\'' {
		return
	}
	text := pre + kind + " $a {" + nl + e.text + "}" + post
	nd.Show("text", text)
	o := &cp.ParseOptions{Open: oneFile(text).open, Glob: noGlob, DirectiveSources: []cp.MatchFunc{nothingKnown}, StopParsingOnError: nd.Pick(2) == 1}
	o.LexOptions = luaLex()
	p, err := cp.Parse(mainConf, o)
	if !o.StopParsingOnError {
		nd.Assert(err == nil && len(p.Errors) == 1, "not one error")
		err = p.Errors[0].Error
	}
	nd.Assert(err != nil, "no error")
	named1(err, e.what, mainConf, line+strings.Count(nl, "\n"), e.stmt, kind)
	nd.Cover("end")
}

// E01_End: a text that ends within a statement or block, or has a stray delimiter, in 5 places.
func E01_End() {
	pre, line, _, block := where()
	k := nd.Pick(9)
	s := []string{"a b", "a\n", "a 'b\n", "q {\n\nx;", "q {\nx", ";", "a;\n;", "q {\nx\ny 'z\n'", "q {\n\nx 'y\n\n"}[k]
	what := []string{"premature end of file", "premature end of file", "premature end of file", "unexpected end of file, expecting \"}\"", "premature end of file", "unexpected \";\"", "unexpected \";\"", "premature end of file", "premature end of file"}[k]
	at := line + []int{0, 0, 0, 2, 1, 0, 1, 1, 2}[k]
	if k == 3 || k == 4 || k > 6 {
		block = "q"
	}
	nd.Show("text", pre+s)
	o := &cp.ParseOptions{Open: oneFile(pre + s).open, Glob: noGlob, DirectiveSources: []cp.MatchFunc{nothingKnown}, StopParsingOnError: nd.Pick(2) == 1}
	o.LexOptions = luaLex()
	p, err := cp.Parse(mainConf, o)
	if !o.StopParsingOnError {
		nd.Assert(err == nil && len(p.Errors) == 1, "not one error")
		err = p.Errors[0].Error
	}
	nd.Assert(err != nil, "no error")
	named1(err, what, mainConf, at, "", block)
	nd.Assert(errors.Is(err, cp.ErrPrematureLexEnd) == (k != 5 && k != 6), "the cause is lost or made up")
	nd.Cover("end")
}

type burning struct {
	s   string
	err error
}

func (f *burning) Read(p []byte) (int, error) {
	if f.s == "" {
		return 0, f.err
	}
	n := copy(p, f.s)
	f.s = f.s[n:]
	return n, nil
}

func (f *burning) Close() error { return nil }

// E01_Cause: a reader that fails after any of 30 characters of the main or an included file, with one of 24 errors.
func E01_Cause() {
	base := errors.New("disk on fire")
	e := failure()
	if _, ok := e.(*cp.ParseError); ok || nd.Pick(4) == 0 { // a reader may return even a ParseError, which then is taken as it is
		e = &wrapped{base}
	}
	text := "a 'b' {\n c ${d} e;\n #x\n f {}\n}\n"
	n := nd.Pick(len(text) + 1)
	inc := nd.Pick(2) == 1
	line := 1 + strings.Count(text[:n], "\n")
	nd.Show("text", text[:n])
	file := mainConf
	if inc {
		file = "/etc/nginx/inc"
	}
	o := &cp.ParseOptions{Glob: noGlob, DirectiveSources: []cp.MatchFunc{nothingKnown}, StopParsingOnError: nd.Pick(2) == 1}
	o.Open = func(f string) (io.ReadCloser, error) {
		if f != file {
			return rc{strings.NewReader("ok;\n include inc;")}, nil
		}
		return &burning{text[:n], e}, nil
	}
	o.LexOptions = luaLex()
	p, err := cp.Parse(mainConf, o)
	if !o.StopParsingOnError {
		nd.Assert(err == nil && len(p.Errors) == 1, "not one error")
		err = p.Errors[0].Error
	}
	nd.Assert(err != nil && errors.Is(err, e), "the cause is lost")
	var pe *cp.ParseError
	nd.Assert(errors.As(err, &pe) && *pe.File == file && pe.Line != nil && *pe.Line <= line, "the error names another place")
	nd.Assert(pe.What == e.Error(), "the error says something else")
	nd.Cover("end")
}

// E01_Args: the statement an error names: up to 3 arguments of 1 (thorough: 2) characters of any class, quoted.
func E01_Args() {
	n := nd.Pick(4)
	text, stmt := "nope", "nope"
	for i := 0; i < n; i++ {
		a := nd.StrIn(tiered(1, 2), "a{;} #\n'")
		text += " \"" + a + "\""
		stmt += " " + a
	}
	term := nd.Pick(2)
	text += []string{";", " {x y;}"}[term]
	nd.Show("text", text)
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile("\n" + text).open, Glob: noGlob, ErrorOnUnknownDirectives: true})
	nd.Assert(err == nil && len(p.Errors) == 1, "not one error")
	var pe *cp.ParseError
	nd.Assert(errors.As(p.Errors[0].Error, &pe), "error of another kind")
	nd.Show("statement", pe.Statement)
	nd.Assert(pe.Statement == stmt || n == 0 && strings.TrimSpace(pe.Statement) == stmt, "the error names another statement")
	nd.Assert(*pe.Line == 2, "the error names another line")
	nd.Cover("end")
}

// E01_Names: the messages name a directive (and value) of 1 to 3 characters of 12 classes as it is: 6 kinds of errors, on each kind of which the
// mask of the only known name decides.
func E01_Names() {
	name := "n" + nd.StrIn(tiered(1, 2), "a%\\\"'$\t<&{\x01")
	if nd.Pick(3) == 0 {
		name = "é" + name[1:]
	}
	val := nd.StrIn(1, "a%\\\"$\t<&{\x01") + "é"
	k := nd.Pick(6)
	mask := []uint{0, mEvents | mAny, mMain | mNoArgs, mMain | mFlag, mMain | mAny, mMain | mBlock | mAny}[k]
	what := []string{"unknown directive \"" + name + "\"", "\"" + name + "\" directive is not allowed here", "invalid number of arguments in \"" + name + "\" directive",
		"invalid value \"" + val + "\" in \"" + name + "\" directive, it must be \"on\" or \"off\"", "directive \"" + name + "\" is not terminated by \";\"",
		"directive \"" + name + "\" has no opening \"{\""}[k]
	quote := func(s string) string {
		b := []byte{'"'}
		for i := 0; i < len(s); i++ {
			if s[i] == '"' {
				b = append(b, '\\')
			}
			b = append(b, s[i])
		}
		return string(append(b, '"'))
	}
	nd.Assume(name[len(name)-1] != '\\')
	for i := 0; i+1 < len(name); i++ {
		nd.Assume(!(name[i] == '\\' && (name[i+1] == '\\' || name[i+1] == '"')))
	}
	nd.Assume(val[0] != '\\' || len(val) > 1 && val[1] != '"')
	text := "\n" + quote(name) + " " + quote(val) + ";"
	if k == 4 {
		text = text[:len(text)-1] + " {}"
	}
	nd.Show("text", text)
	o := &cp.ParseOptions{Open: oneFile(text).open, Glob: noGlob, ErrorOnUnknownDirectives: true, StopParsingOnError: true}
	o.DirectiveSources = []cp.MatchFunc{func(s string) ([]uint, bool) { return []uint{mask}, k > 0 && s == name }}
	_, err := cp.Parse(mainConf, o)
	nd.Assert(err != nil, "no error")
	named1(err, what, mainConf, 2, name+" "+val, "main")
	nd.Cover("end")
}

// E01_Sources: opening the main file, a file it includes, one that a glob function reports, or the glob function itself fails with one of 24
// errors (io.EOF among them): the error is reported with its cause, as the returned error where the file itself cannot be parsed.
func E01_Sources() {
	e := errs[nd.Pick(len(errs))]
	k := nd.Pick(4)
	stop := nd.Pick(2) == 1
	nd.Show("fails", []string{"main", "include", "globbed", "glob"}[k]+" "+e.Error())
	o := &cp.ParseOptions{DirectiveSources: []cp.MatchFunc{nothingKnown}, StopParsingOnError: stop, CombineConfigs: nd.Pick(2) == 1, SkipDirectiveContextCheck: nd.Pick(2) == 1, ErrorOnUnknownDirectives: false}
	o.Open = func(f string) (io.ReadCloser, error) {
		if k == 0 || k == 1 && f == "/etc/nginx/i" || k == 2 && f == "/etc/nginx/g" {
			return nil, e
		}
		return rc{strings.NewReader([]string{"a; http { \n include i; } include *; z;", "b;"}[b2n(f != mainConf)])}, nil
	}
	o.Glob = func(string) ([]string, error) {
		if k == 3 {
			return nil, e
		}
		return []string{"/etc/nginx/g"}, nil
	}
	p, err := cp.Parse(mainConf, o)
	if k == 0 || k == 2 {
		nd.Assert(err != nil && errors.Is(err, e), "not the error of opening the file")
		nd.Cover("file")
		return
	}
	if !stop {
		nd.Assert(err == nil && p.Status == "failed" && len(p.Errors) == 1, "not one error")
		err = p.Errors[0].Error
		nd.Assert(p.Errors[0].File == mainConf && *p.Errors[0].Line == 2, "recorded for another place")
	}
	nd.Assert(err != nil && errors.Is(err, e), "the cause is lost")
	named1(err, e.Error(), mainConf, 2, []string{"include i", "include *"}[k/3], []string{"http", "main"}[k/3])
	nd.Cover("statement")
}

func b2n(b bool) int {
	if b {
		return 1
	}
	return 0
}
