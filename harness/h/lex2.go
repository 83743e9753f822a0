package h

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["L05_Chunks"] = L05_Chunks
	All["L05_Bytes"] = L05_Bytes
	All["L05_Lua"] = L05_Lua
	All["L05_Buffer"] = L05_Buffer
	All["L05_Parse"] = L05_Parse
	All["L06_Lex"] = L06_Lex
	All["L06_Alpha"] = L06_Alpha
	All["L06_Parse"] = L06_Parse
	All["L06_Scaled"] = L06_Scaled
	All["L07_Content"] = L07_Content
	All["L07_Fragments"] = L07_Fragments
	All["L07_Around"] = L07_Around
	All["L07_Names"] = L07_Names
	All["L07_Set"] = L07_Set
	All["L07_Build"] = L07_Build
	All["L07_Parse"] = L07_Parse
	All["L07_Scaled"] = L07_Scaled
}

// chunked delivers a text in chunks of arbitrary sizes.
type chunked struct {
	s       string
	empties int // empty reads left
	big     bool
	fail    error // returned at the end instead of io.EOF
	choices int   // number of chunk sizes left to choose freely
	withEnd bool
}

func (c *chunked) end() error {
	if c.fail != nil {
		return c.fail
	}
	return io.EOF
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		return 0, c.end()
	}
	n := len(c.s)
	if c.choices > 0 {
		c.choices--
		k := nd.Pick(4)
		if k == 0 && c.empties > 0 {
			c.empties--
			return 0, nil
		}
		if k > 0 && k < 3 && k < n {
			n = k
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.s[:n])
	c.s = c.s[n:]
	if len(c.s) == 0 && c.withEnd {
		return n, c.end()
	}
	return n, nil
}

func sameTokens(a, b []cp.NgxToken) {
	nd.Show("tokens", showToks(a))
	nd.Show("expected", showToks(b))
	nd.Assert(len(a) == len(b), "number of tokens differs")
	for i := range a {
		nd.Assert(a[i].Value == b[i].Value, "value differs")
		nd.Assert(a[i].Line == b[i].Line && a[i].IsQuoted == b[i].IsQuoted, "line or quoting differs")
		nd.Assert((a[i].Error == nil) == (b[i].Error == nil), "error differs")
		if a[i].Error != nil {
			nd.Assert(what(a[i].Error) == what(b[i].Error) && lineOf(a[i].Error) == lineOf(b[i].Error), "error differs")
		}
	}
}

func chunks(s string, choices int) *chunked {
	return &chunked{s: s, empties: 2, choices: choices, withEnd: nd.Pick(2) == 1}
}

// L05_Chunks: texts of 3 (thorough: 4) arbitrary characters of every class behind 4 prefixes, the first 4 reads
// delivering 0, 1, 2 or all bytes, the end of file with or after the last data.
func L05_Chunks() {
	pre := []string{"", "a\u00e9\\", "\"x", "#"}
	s := pre[nd.Pick(len(pre))] + nd.StrIn(tiered(3, 4), lexAlpha)
	nd.Show("text", s)
	sameTokens(lexAll(chunks(s, 4), cp.LexOptions{}), lexStr(s))
	nd.Cover("end")
}

// L05_Bytes: texts of 2 (thorough: 3) arbitrary bytes, hence characters cut anywhere and invalid encodings, the
// first 4 reads delivering 0, 1, 2 or all bytes.
func L05_Bytes() {
	s := nd.Str(tiered(2, 3))
	nd.Show("text", s)
	sameTokens(lexAll(chunks(s, tiered(3, 4)), cp.LexOptions{}), lexStr(s))
	nd.Cover("end")
}

// L05_Lua: Lua content of 1 (thorough: 2) characters, 3 reads of 0, 1, 2 or all bytes around it.
func L05_Lua() {
	s := "set_by_lua_block $x {" + nd.StrIn(tiered(1, 2), "a{}\"\n\xc3\xa9") + "} b;\n"
	nd.Show("text", s)
	k := nd.Pick(len(s))
	r := io.MultiReader(strings.NewReader(s[:k]), chunks(s[k:], 3))
	sameTokens(lexAll(r, luaLex()), lexAll(strings.NewReader(s), luaLex()))
	nd.Cover("end")
}

// L05_Buffer: cut characters, escapes and quotes after a word, string or comment of a size next to any constant of the code or
// of the scanner's buffer (4096), read in one piece and in pieces.
func L05_Buffer() {
	nd.MaxSteps(400_000_000)
	var n int
	if nd.Pick(2) == 0 {
		n = nd.CodeInt(1, tiered(2100, 70000))
	} else {
		n = 4090 + nd.Pick(8)
	}
	pre := []string{"w", "\"w", "#w", "a\n", "\u00e9"}
	k := nd.Pick(len(pre))
	s := strings.Repeat(pre[k][len(pre[k])-1:], n)
	if k == 4 {
		s = strings.Repeat(pre[k], n/2)
	} else {
		s = pre[k] + s
	}
	s += []string{"\u00e9", "\\\"", "\"\n"}[nd.Pick(3)] + "b;"
	k = len(s) - 4
	c := chunks(s[k:], 1)
	sameTokens(lexAll(io.MultiReader(strings.NewReader(s[:k]), c), cp.LexOptions{}), lexStr(s))
	nd.Cover("end")
}

// L05_Parse: parsing 2 (thorough: 3) characters inside a block, 4 reads of 0, 1, 2 or all bytes.
func L05_Parse() {
	s := "a {" + nd.StrIn(tiered(2, 3), "b{};\"# \n") + " c \u00e9;}\n"
	nd.Show("text", s)
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: func(string) (io.ReadCloser, error) { return rc{chunks(s, 4)}, nil }, Glob: noGlob, ParseComments: true})
	p2, err2 := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, ParseComments: true})
	nd.Assert(err == nil && err2 == nil, "error returned")
	nd.Assert(showPayload(p) == showPayload(p2), "payload differs")
	nd.Cover("end")
}

type wrapEOF struct{}

func (wrapEOF) Error() string { return "wrapped EOF" }
func (wrapEOF) Unwrap() error { return io.EOF }

var errBoom = errors.New("boom")

// errs are errors that programs treat specially.
var errs = []error{errBoom, io.ErrUnexpectedEOF, wrapEOF{}, io.ErrClosedPipe, &cp.ParseError{What: "odd"}, fs.ErrNotExist, fs.ErrPermission, fs.ErrClosed, io.ErrNoProgress, io.ErrShortBuffer,
	context.Canceled, context.DeadlineExceeded, &fs.PathError{Op: "open", Path: "/x", Err: fs.ErrNotExist}, &wrapped{fs.ErrNotExist}, fs.SkipDir, fs.ErrInvalid, filepath.ErrBadPattern, passing{}, syscall.EINTR, syscall.ENOENT,
	syscall.EISDIR, io.ErrShortWrite, fs.ErrExist, io.EOF}

// passing is an error that says it will pass.
type passing struct{}

func (passing) Error() string   { return "try again" }
func (passing) Timeout() bool   { return true }
func (passing) Temporary() bool { return true }

// failure picks an error of a reader.
func failure() error { return errs[nd.Pick(len(errs)-1)] }

// failsWell lexes what a reader delivers before failing.
func failsWell(s string, lo cp.LexOptions) {
	nd.Show("text", s)
	e := failure()
	ts := lexAll(&chunked{s: s, fail: e, withEnd: nd.Pick(2) == 1}, lo)
	nd.Show("tokens", showToks(ts))
	nd.Assert(len(ts) > 0 && ts[len(ts)-1].Error != nil, "the failure of the reader is not reported")
	last := ts[len(ts)-1].Error
	plain := lexAll(strings.NewReader(s), lo)
	if n := len(plain); n > 0 && plain[n-1].Error != nil && !errors.Is(plain[n-1].Error, cp.ErrPrematureLexEnd) && !errors.Is(last, e) {
		// the text read had an error of its own
		nd.Assert(what(last) == what(plain[n-1].Error), "wrong error")
		nd.Cover("lexical error first")
		return
	}
	nd.Assert(errors.Is(last, e), "the error is not that of the reader")
	nd.Cover("reader error")
}

// L06_Lex: a reader failing with one of 23 errors, with or after the data, at any point of a text with blocks,
// quotes, comments, variables and escapes.
func L06_Lex() {
	s := "a \"b;c\";\n# d\nhttp { e ${f}g\\h; set_by_lua_block $x { return '}' } \u00e9 'i'; }\n"
	failsWell(s[:nd.Pick(len(s)+1)], luaLex())
}

// L06_Alpha: a reader failing after 4 (thorough: 5) characters of every class.
func L06_Alpha() { failsWell(nd.StrIn(tiered(4, 5), lexAlpha), luaLex()) }

// L06_Scaled: a reader failing after as much data as any constant of the code says.
func L06_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(4200, 70000))
	s := []string{"a;", "w", " w", "\n"}[nd.Pick(4)]
	s = "w" + strings.Repeat(s, n)
	e := errBoom
	ts := lexAll(&chunked{s: s, fail: e}, cp.LexOptions{})
	nd.Assert(len(ts) > 0 && errors.Is(ts[len(ts)-1].Error, e), "the failure of the reader is not reported")
	nd.Cover("end")
}

// L06_Parse: main file and included file, either of which fails at any point of a text of 4 statements, directly or
// in a block that is accepted, rejected or ignored; in both error modes, with and without combining.
func L06_Parse() {
	s := "events { worker_connections 1; } nope { x { y; } } ig { z { } } include inc; http { nope; }\n"
	inc := "a b; ig { c; d { } }\n"
	e := failure()
	which := nd.Pick(2)
	k := nd.Pick([]int{len(s), len(inc)}[which] + 1)
	nd.Show("at", itoa(k))
	stop := nd.Pick(2) == 1
	v := &vfs{}
	opts := &cp.ParseOptions{Glob: noGlob, StopParsingOnError: stop, IgnoreDirectives: []string{"ig"}, SkipDirectiveContextCheck: true, SkipDirectiveArgsCheck: true,
		ErrorOnUnknownDirectives: !stop && nd.Pick(2) == 1, CombineConfigs: nd.Pick(2) == 1}
	opts.Open = func(p string) (io.ReadCloser, error) {
		v.opened = append(v.opened, p)
		if (p == mainConf) != (which == 0) {
			t := s
			if p != mainConf {
				t = inc
			}
			return rc{strings.NewReader(t)}, nil
		}
		if p == mainConf {
			return rc{&chunked{s: s[:k], fail: e}}, nil
		}
		return rc{&chunked{s: inc[:k], fail: e}}, nil
	}
	p, err := cp.Parse(mainConf, opts)
	if stop {
		nd.Assert(err != nil, "the failure of the reader is not returned")
		nd.Assert(errors.Is(err, e), "the error returned is not that of the reader")
		nd.Cover("stopped")
		return
	}
	nd.Assert(err == nil, "error returned")
	nd.Assert(p.Status == "failed", "status")
	found := false
	for _, pe := range p.Errors {
		found = found || errors.Is(pe.Error, e) && pe.File == []string{mainConf, "/etc/nginx/inc"}[which]
	}
	nd.Assert(found, "the failure of the reader is not recorded for its file")
	nd.Cover("collected")
}

// showPayload renders everything of a payload.
func showPayload(p *cp.Payload) string {
	s := p.Status + "\n"
	for _, e := range p.Errors {
		s += "!" + e.File + ":"
		if e.Line != nil {
			s += itoa(*e.Line)
		}
		s += ":" + what(e.Error) + "\n"
	}
	for _, c := range p.Config {
		s += "=" + c.File + " " + c.Status + " " + itoa(len(c.Errors)) + "\n"
		for _, e := range c.Errors {
			s += " !"
			if e.Line != nil {
				s += itoa(*e.Line)
			}
			s += ":" + what(e.Error) + "\n"
		}
		s += tree(c.Parsed, true, true) + "\n"
	}
	return s
}

var luaNames = []string{
	"content_by_lua_block", "set_by_lua_block", "init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block",
	"server_rewrite_by_lua_block", "rewrite_by_lua_block", "access_by_lua_block", "header_filter_by_lua_block",
	"body_filter_by_lua_block", "log_by_lua_block", "balancer_by_lua_block", "ssl_client_hello_by_lua_block",
	"ssl_certificate_by_lua_block", "ssl_session_fetch_by_lua_block", "ssl_session_store_by_lua_block",
	"precontent_by_lua_block", "proxy_ssl_certificate_by_lua_block", "proxy_ssl_verify_by_lua_block",
}

func isLua(s string) bool {
	for _, n := range luaNames {
		if n == s {
			return true
		}
	}
	return false
}

type luaRef struct {
	out   []tok
	depth int
	open  bool // a Lua block is not finished
	// names and lex stand for external lexers other than that of Lua
	names func(string) bool
	lex   func(name, text string, line int)
}

func (l *luaRef) external(v string) bool {
	if l.names != nil {
		return l.names(v)
	}
	return isLua(v)
}

// add is the reference lexer with Lua blocks, from a directive position on.
func (l *luaRef) add(text string, line int, afterDelim bool) {
	us, ends := unitsEnds(text)
	at := func(u unit) int { return line + u.start - 1 }
	first := true // at a directive position
	for i := 0; i < len(us); {
		u := us[i]
		lua := -1 // offset at which Lua starts
		switch {
		case space(u):
			i++
		case is(u, '#'):
			v := ""
			for i < len(us) && us[i].r != '\n' {
				v += us[i].s
				i++
			}
			i++
			l.out = append(l.out, tok{val: v, line: at(u)})
		case is(u, '"'), is(u, '\''):
			v := ""
			i++
			for i < len(us) && !is(us[i], u.r) {
				if us[i].esc && us[i].r == u.r {
					v += u.s
				} else {
					v += us[i].s
				}
				i++
			}
			if i < len(us) && first && l.external(v) {
				lua = ends[i]
			}
			i++
			l.out = append(l.out, tok{val: v, line: at(u), quoted: true})
			afterDelim, first = false, false
		case isDelim(u):
			if u.r != '}' && afterDelim {
				l.out = append(l.out, tok{line: at(u), err: "unexpected \"" + u.s + "\""})
				return
			}
			if u.r == '{' {
				l.depth++
			}
			if u.r == '}' {
				l.depth--
			}
			if l.depth < 0 {
				l.out = append(l.out, tok{line: at(u), err: "unexpected \"}\""})
				return
			}
			l.out = append(l.out, tok{val: u.s, line: at(u)})
			afterDelim, first = true, true
			i++
		default:
			v := ""
			inVar := false
			start := i
			for i < len(us) {
				w := us[i]
				if inVar {
					v += w.s
					i++
					inVar = w.r != '}' && !space(w)
					continue
				}
				if space(w) {
					if first && l.external(v) {
						lua = ends[i]
					}
					i++
					break
				}
				if is(w, '{') && i > start && us[i-1].r == '$' {
					inVar = true
				} else if isDelim(w) {
					if w.r == '{' && first && l.external(v) {
						lua = ends[i] - 1
					}
					break
				}
				v += w.s
				i++
			}
			l.out = append(l.out, tok{val: v, line: at(u)})
			afterDelim, first = false, false
		}
		if lua >= 0 {
			lex := l.lua
			if l.lex != nil {
				lex = l.lex
			}
			lex(l.out[len(l.out)-1].val, text[lua:], line+strings.Count(text[:lua], "\n"))
			return
		}
	}
	if l.depth > 0 {
		l.out = append(l.out, tok{line: line + strings.Count(text, "\n"), err: "unexpected end of file, expecting \"}\""})
	}
}

// lua is the reference for a Lua block.
func (l *luaRef) lua(name, text string, line int) {
	p := 0
	next := func() (rune, bool) {
		if p >= len(text) {
			return 0, false
		}
		r, n := utf8.DecodeRuneInString(text[p:])
		p += n
		if r == '\n' {
			line++
		}
		return r, true
	}
	eof := func() {
		l.open = true
		if l.depth > 0 {
			l.out = append(l.out, tok{line: line, err: "unexpected end of file, expecting \"}\""})
		}
	}
	r, ok := next()
	for ok && unicode.IsSpace(r) {
		r, ok = next()
	}
	if name == "set_by_lua_block" {
		v, at := "", line
		for ok && !unicode.IsSpace(r) {
			if (r == '{' || r == '}' || r == ';') && !strings.HasPrefix(v+string(r), "${") {
				if r == '{' && v != "" {
					break
				}
				l.out = append(l.out, tok{line: line, err: "unexpected \"" + string(r) + "\""})
				return
			}
			v += string(r)
			r, ok = next()
		}
		if !ok {
			eof()
			return
		}
		l.out = append(l.out, tok{val: v, line: at})
		for ok && unicode.IsSpace(r) {
			r, ok = next()
		}
	}
	if !ok {
		eof()
		return
	}
	if r != '{' {
		l.out = append(l.out, tok{line: line, err: "expected \"{\" to start lua block"})
		return
	}
	start, depth := p, 1
	var quote rune
	for {
		r, ok = next()
		if !ok {
			eof()
			return
		}
		switch {
		case quote != 0:
			if r == quote {
				quote = 0
			}
		case r == '"' || r == '\'':
			quote = r
		case r == '{':
			depth++
		case r == '}':
			depth--
		}
		if depth == 0 {
			l.out = append(l.out, tok{val: text[start : p-1], line: line, quoted: true}, tok{val: ";", line: line})
			l.add(text[p:], line, true)
			return
		}
	}
}

// unitsEnds also tells at which offset each unit ends.
func unitsEnds(text string) ([]unit, []int) {
	us := units(text)
	var ends []int
	esc := false
	for i, r := range text {
		if r == '\r' {
			continue
		}
		if r == '\\' && !esc {
			esc = true
			continue
		}
		esc = false
		ends = append(ends, i+utf8.RuneLen(r))
	}
	return us, ends
}

func compareLua(s string) *luaRef {
	nd.Show("text", s)
	nd.Assume(utf8.ValidString(s))
	got := lexAll(strings.NewReader(s), luaLex())
	l := &luaRef{}
	l.add(s, 1, true)
	nd.Show("tokens", showToks(got))
	nd.Show("expected", showRef(l.out))
	nd.Assert(len(got) == len(l.out), "number of tokens differs")
	for i, t := range got {
		w := l.out[i]
		nd.Assert((t.Error != nil) == (w.err != ""), "error differs")
		if w.err != "" {
			nd.Assert(what(t.Error) == w.err && lineOf(t.Error) == w.line, "error differs")
			continue
		}
		nd.Assert(t.Value == w.val, "token value differs")
		nd.Assert(t.IsQuoted == w.quoted && t.Line == w.line, "line or quoting differs")
	}
	if l.open {
		_, err := cp.Parse(mainConf, &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, StopParsingOnError: true, LexOptions: luaLex(), DirectiveSources: []cp.MatchFunc{nothingKnown}})
		nd.Assert(err != nil, "an unfinished Lua block is not reported")
		nd.Cover("unfinished")
	} else if len(l.out) > 0 && l.out[len(l.out)-1].err != "" {
		nd.Cover("error")
	} else {
		nd.Cover("fine")
	}
	return l
}

// L07_Content: 5 (thorough: 6) characters of every class after the opening brace, 3 places and 4 continuations.
func L07_Content() {
	pre := []string{"content_by_lua_block {", "http {\na\\\n 'b';\nset_by_lua_block $x\n{", "a; \"log_by_lua_block\"\r\n\t{"}
	post := []string{"}", "}\nb c;", "}}d;", "} # e\n\"f\" \n;"}
	compareLua(pre[nd.Pick(len(pre))] + nd.StrIn(tiered(4, 6), "a{}'\"\\\n#\r") + post[nd.Pick(len(post))])
}

// L07_Fragments: 5 (thorough: 6) pieces of Lua code: quotes of both kinds, comments, long brackets, braces, line ends and escapes.
func L07_Fragments() {
	f := []string{"\"", "'", "}", "{", "--", "\n", "[[", "]]", "\\", "it's", "x = \"a'b\"", "=", "]=]"}
	s := ""
	for i := 0; i < tiered(4, 5); i++ {
		s += f[nd.Pick(tiered(11, 13))]
	}
	compareLua("content_by_lua_block {" + []string{"", "\n  --", "\n--[[ "}[nd.Pick(3)] + s + "}\nb;")
}

// L07_Around: 2 (thorough: 3) characters of every class on each side of a Lua directive name.
func L07_Around() {
	k := tiered(2, 3)
	s := nd.StrIn(k, "a{;#\"$\\ \n") + "content_by_lua_block"
	compareLua(s + nd.StrIn(k, "a{;\"$\\\r\n") + "} {b};")
}

// L07_Set: 4 (thorough: 5) characters of every class after set_by_lua_block.
func L07_Set() {
	compareLua([]string{"set_by_lua_block", "h {set_by_lua_block "}[nd.Pick(2)] + nd.StrIn(tiered(4, 5), "$a{};\n\" ") + "{b}c;")
}

// L07_Names: every Lua block directive the generated table of the Lua module knows, in directive position, as an
// argument, with a letter before or after.
func L07_Names() {
	n := luaNames[nd.Pick(len(luaNames))]
	arg := ""
	if n == "set_by_lua_block" {
		arg = " $x"
	}
	if nd.Pick(2) == 0 {
		l := compareLua("a;" + n + arg + " { -- '{' \n} b " + n + " {c;}")
		nd.Assert(len(l.out) >= 5, "")
		return
	}
	compareLua([]string{"x" + n, n + "x", "a " + n, n + ";", n + ".", "by_lua_block"}[nd.Pick(6)] + arg + " { d '}' ; } e;")
}

// L07_Parse: the parsed tree with Lua content of 4 (thorough: 5) characters balanced by construction, nested in
// blocks, for a directive with and without a variable; and the same with the Lua directives known.
func L07_Parse() {
	c := nd.StrIn(tiered(4, 5), "a{}'\n;#")
	n := []string{"content_by_lua_block", "set_by_lua_block $v"}[nd.Pick(2)]
	s := "http {\n location / { " + n + " {" + c + "}\nb c;}}\nd;"
	l := &luaRef{}
	l.add(s, 1, true)
	// keep the cases in which the block ends where the text has it end
	name := strings.Fields(n)[0]
	i := 0
	for i < len(l.out) && l.out[i].val != name {
		i++
	}
	j := i + 1
	if name == "set_by_lua_block" {
		j++
	}
	nd.Assume(j < len(l.out) && l.out[j].val == c && l.out[j].quoted)
	nd.Show("text", s)
	o := &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, LexOptions: luaLex(), StopParsingOnError: true, DirectiveSources: []cp.MatchFunc{nothingKnown}}
	if nd.Pick(2) == 1 {
		o.DirectiveSources = append(o.DirectiveSources, cp.MatchLuaLatest)
	}
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error returned")
	ds := p.Config[0].Parsed
	nd.Assert(len(ds) == 2 && ds[1].Directive == "d" && len(ds[0].Block) == 1 && len(ds[0].Block[0].Block) == 2, "tree differs")
	d := ds[0].Block[0].Block[0]
	nd.Assert(d.Directive == name && d.Block == nil && len(d.Args) == j-i && d.Args[len(d.Args)-1] == c, "Lua directive differs")
	b := ds[0].Block[0].Block[1]
	nd.Assert(b.Directive == "b" && len(b.Args) == 1 && b.Args[0] == "c" && b.Line == 3+strings.Count(c, "\n"), "directive after the Lua block differs")
	nd.Cover("end")
}

// L07_Build: parsing, building with the Lua builder and parsing again gives the Lua content back: 4 (thorough: 5)
// characters, any indentation of 2.
func L07_Build() {
	c := nd.StrIn(tiered(4, 5), "a{}'\"\\\n;#\r")
	n := []string{"content_by_lua_block", "set_by_lua_block $v"}[nd.Pick(2)]
	s := "http {" + n + " {" + c + "} #e\nb c;}"
	nd.Show("text", s)
	o := &cp.ParseOptions{Open: oneFile(s).open, Glob: noGlob, LexOptions: luaLex(), StopParsingOnError: true, ParseComments: true, DirectiveSources: []cp.MatchFunc{nothingKnown}}
	p, err := cp.Parse(mainConf, o)
	nd.Assume(err == nil)
	bo := &cp.BuildOptions{Indent: nd.Pick(3), Builders: []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}}
	out := &strings.Builder{}
	nd.Assert(cp.Build(out, p.Config[0], bo) == nil, "build fails")
	nd.Show("built", out.String())
	o.Open = oneFile(out.String()).open
	p2, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "built text does not parse")
	nd.Assert(tree(p.Config[0].Parsed, false, false) == tree(p2.Config[0].Parsed, false, false), "tree differs")
	nd.Cover("end")
}

// L07_Scaled: Lua content with a size, nesting or number of lines next to any constant of the code.
func L07_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(2100, 70000))
	c := []string{strings.Repeat("a", n), strings.Repeat("{", n) + strings.Repeat("}", n), strings.Repeat("\n", n), "'" + strings.Repeat("}", n) + "'"}[nd.Pick(4)]
	compareLua("a; content_by_lua_block {" + c + "}" + nd.StrIn(1, "\n;}b") + "b;")
}
