package h

import (
	"bytes"
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["T02_History"] = T02_History
}

// word is an extension: what follows its directive up to the next '.' is one token.
type word struct{}

func (word) Lex(s *cp.SubScanner, _ string) <-chan cp.NgxToken {
	ch := make(chan cp.NgxToken)
	go func() {
		defer close(ch)
		t := ""
		for s.Scan() {
			if s.Text() == "." {
				ch <- cp.NgxToken{Value: t, Line: s.Line(), IsQuoted: true}
				ch <- cp.NgxToken{Value: ";", Line: s.Line()}
				return
			}
			t += s.Text()
		}
	}()
	return ch
}

func (word) RegisterLexer() cp.RegisterLexer { return cp.LexWithLexer(word{}, "w") }

func (word) Build(d *cp.Directive) string { return "W(" + strings.Join(d.Args, ",") + ")" }

func (word) RegisterBuilder() cp.RegisterBuilder { return cp.BuildWithBuilder(word{}, "w") }

// knows gives a match function that knows directives with at most one argument, at the top.
func knows(names ...string) cp.MatchFunc {
	return func(d string) ([]uint, bool) {
		for _, n := range names {
			if n == d {
				return []uint{0x40000 | 3}, true
			}
		}
		return nil, false
	}
}

// op is a call with the result it gives alone. Calls give a function that shows their result, now or later.
type op struct {
	run  func() func() string
	want string
}

func parsed(o *cp.ParseOptions, texts ...string) func() func() string {
	return func() func() string {
		p := *o
		v := &vfs{}
		for i, t := range texts {
			v.add([]string{mainConf, "/etc/nginx/b", "/etc/nginx/c"}[i], t)
		}
		if p.Open == nil {
			p.Open = v.open
		}
		if p.Glob == nil {
			p.Glob = noGlob
		}
		r, err := cp.Parse(mainConf, &p)
		return func() string {
			if err != nil {
				return "error " + err.Error()
			}
			s := r.Status
			for _, c := range r.Config {
				s += " " + c.File + ":" + tree(c.Parsed, true, false)
			}
			for _, e := range r.Errors {
				s += " !" + e.Error.Error()
				if e.Callback != nil {
					s += "=" + e.Callback.(string)
				}
			}
			return s
		}
	}
}

func lexed(lo cp.LexOptions, text string) func() func() string {
	return func() func() string {
		ts := lexAll(strings.NewReader(text), lo)
		return func() string { return showToks(ts) }
	}
}

func built(o *cp.BuildOptions, ds ...*cp.Directive) func() func() string {
	return func() func() string {
		var b bytes.Buffer
		err := cp.Build(&b, cp.Config{File: mainConf, Parsed: ds}, o)
		return func() string { return btoa(err == nil) + b.String() }
	}
}

func ops() []op {
	wl := cp.LexOptions{Lexers: []cp.RegisterLexer{word{}.RegisterLexer()}}
	both := cp.LexOptions{Lexers: []cp.RegisterLexer{word{}.RegisterLexer(), (&cp.Lua{}).RegisterLexer()}}
	all := []cp.MatchFunc{nothingKnown}
	loose := &cp.ParseOptions{DirectiveSources: all}
	dir := func(n string, args ...string) *cp.Directive { return &cp.Directive{Directive: n, Args: args, Line: 1} }
	blk := func(d *cp.Directive, ds ...*cp.Directive) *cp.Directive {
		d.Block = append(cp.Directives{}, ds...)
		return d
	}
	return []op{
		// the same file with other contents
		{parsed(&cp.ParseOptions{}, "worker_processes 1;"), `ok /etc/nginx/nginx.conf:<16'worker_processes'@1 1'1'>`},
		{parsed(&cp.ParseOptions{}, "\nworker_processes 12;"), `ok /etc/nginx/nginx.conf:<16'worker_processes'@2 2'12'>`},
		{parsed(&cp.ParseOptions{}, "events {\n"), `failed /etc/nginx/nginx.conf: !unexpected end of file, expecting "}" in /etc/nginx/nginx.conf:2`},
		{parsed(&cp.ParseOptions{}, "listen 80;\nfoo;"), `failed /etc/nginx/nginx.conf:<3'foo'@2> !"listen" directive is not allowed here in /etc/nginx/nginx.conf:1`},
		// the same text with other options
		{parsed(&cp.ParseOptions{SkipDirectiveContextCheck: true}, "listen 80;\nfoo;"), `ok /etc/nginx/nginx.conf:<6'listen'@1 2'80'><3'foo'@2>`},
		{parsed(&cp.ParseOptions{ErrorOnUnknownDirectives: true, SkipDirectiveContextCheck: true}, "listen 80;\nfoo;"), `failed /etc/nginx/nginx.conf:<6'listen'@1 2'80'> !unknown directive "foo" in /etc/nginx/nginx.conf:2`},
		{parsed(&cp.ParseOptions{ErrorOnUnknownDirectives: true, DirectiveSources: []cp.MatchFunc{knows("foo")}}, "listen 80;\nfoo;"), `failed /etc/nginx/nginx.conf:<3'foo'@2> !unknown directive "listen" in /etc/nginx/nginx.conf:1`},
		{parsed(&cp.ParseOptions{ErrorCallback: func(err error) any { return what(err) }}, "listen 80;\nfoo;"), `failed /etc/nginx/nginx.conf:<3'foo'@2> !"listen" directive is not allowed here in /etc/nginx/nginx.conf:1="listen" directive is not allowed here`},
		{parsed(&cp.ParseOptions{StopParsingOnError: true}, "listen 80;\nfoo;"), `error "listen" directive is not allowed here in /etc/nginx/nginx.conf:1`},
		{parsed(&cp.ParseOptions{IgnoreDirectives: []string{"listen"}}, "listen 80;\nfoo;"), `ok /etc/nginx/nginx.conf:<3'foo'@2>`},
		{parsed(loose, "a { include b; # c\n}include b;", "d;"), `ok /etc/nginx/nginx.conf:<1'a'@1{<7'include'@1 1'b'+1,>}><7'include'@2 1'b'+1,> /etc/nginx/b:<1'd'@1>`},
		{parsed(loose, "a { include b; # c\n}include b;", "include c;\ne;", "f;"), `ok /etc/nginx/nginx.conf:<1'a'@1{<7'include'@1 1'b'+1,>}><7'include'@2 1'b'+1,> /etc/nginx/b:<7'include'@1 1'c'+2,><1'e'@2> /etc/nginx/c:<1'f'@1>`},
		{parsed(loose, "a { include b; # c\n}include b;"), `failed /etc/nginx/nginx.conf:<1'a'@1{<7'include'@1 1'b'>}><7'include'@2 1'b'> !no such file in /etc/nginx/nginx.conf:1 !no such file in /etc/nginx/nginx.conf:2`},
		{parsed(&cp.ParseOptions{DirectiveSources: all, SingleFile: true, ParseComments: true}, "a { include b; # c\n}include b;", "d;"), `ok /etc/nginx/nginx.conf:<1'a'@1{<7'include'@1 1'b'><1'#'@1#2' c'>}><7'include'@2 1'b'>`},
		{parsed(&cp.ParseOptions{DirectiveSources: all, CombineConfigs: true}, "a { include b; # c\n}include b;", "d;"), `ok /etc/nginx/nginx.conf:<1'a'@1{<1'd'@1>}><1'd'@1>`},
		{parsed(&cp.ParseOptions{Glob: func(string) ([]string, error) { return []string{"/etc/nginx/c", "/etc/nginx/b"}, nil }}, "include *;", "pid x;", "pid y;"), `ok /etc/nginx/nginx.conf:<7'include'@1 1'*'+1,2,> /etc/nginx/b:<3'pid'@1 1'x'> /etc/nginx/c:<3'pid'@1 1'y'>`},
		{parsed(&cp.ParseOptions{Open: func(string) (io.ReadCloser, error) { return rc{strings.NewReader("pid z;")}, nil }}), `ok /etc/nginx/nginx.conf:<3'pid'@1 1'z'>`},
		// extensions
		{parsed(loose, "w a. b;\ncontent_by_lua_block {x} v;"), `ok /etc/nginx/nginx.conf:<1'w'@1 2'a.' 1'b'><20'content_by_lua_block'@2{<1'x'@2>}><1'v'@2>`},
		{parsed(&cp.ParseOptions{DirectiveSources: all, LexOptions: wl}, "w a. b;\ncontent_by_lua_block {x} v;"), `ok /etc/nginx/nginx.conf:<1'w'@1 1'a'><1'b'@1><20'content_by_lua_block'@2{<1'x'@2>}><1'v'@2>`},
		{parsed(&cp.ParseOptions{DirectiveSources: all, LexOptions: both}, "w a. b;\ncontent_by_lua_block {x} v;"), `ok /etc/nginx/nginx.conf:<1'w'@1 1'a'><1'b'@1><20'content_by_lua_block'@2 1'x'><1'v'@2>`},
		{parsed(&cp.ParseOptions{DirectiveSources: all, LexOptions: luaLex()}, "w a. b;\ncontent_by_lua_block {x} v;"), `ok /etc/nginx/nginx.conf:<1'w'@1 2'a.' 1'b'><20'content_by_lua_block'@2 1'x'><1'v'@2>`},
		{lexed(cp.LexOptions{}, "w b;c. d;content_by_lua_block {x;}"), `|w@1|b@1|;@1|c.@1|d@1|;@1|content_by_lua_block@1|{@1|x@1|;@1|}@1`},
		{lexed(wl, "w b;c. d;content_by_lua_block {x;}"), `|w@1|b;c@1q|;@1|d@1|;@1|content_by_lua_block@1|{@1|x@1|;@1|}@1`},
		{lexed(luaLex(), "w b;c. d;content_by_lua_block {x;}"), `|w@1|b@1|;@1|c.@1|d@1|;@1|content_by_lua_block@1|x;@1q|;@1`},
		{lexed(both, "w b;c. d;content_by_lua_block {x;}"), `|w@1|b;c@1q|;@1|d@1|;@1|content_by_lua_block@1|x;@1q|;@1`},
		{lexed(cp.LexOptions{}, "a 'b"), `|a@1|b@1q`},
		// building
		{built(&cp.BuildOptions{}, blk(dir("a"), blk(dir("w", "b c"), dir("d"))), dir("content_by_lua_block", "x")), btoa(true) + "a {\n    w \"b c\" {\n        d;\n    }\n}\ncontent_by_lua_block x;"},
		{built(&cp.BuildOptions{Indent: 2, Header: true}, blk(dir("a"), blk(dir("w", "b c"), dir("d"))), dir("content_by_lua_block", "x")), btoa(true) + "# This config was built from JSON using NGINX crossplane.\n# If you encounter any bugs please report them here:\n# https://github.com/nginxinc/crossplane/issues\n\na {\n  w \"b c\" {\n    d;\n  }\n}\ncontent_by_lua_block x;"},
		{built(&cp.BuildOptions{Tabs: true}, blk(dir("a"), blk(dir("w", "b c"), dir("d"))), dir("content_by_lua_block", "x")), btoa(true) + "a {\n\tw \"b c\" {\n\t\td;\n\t}\n}\ncontent_by_lua_block x;"},
		{built(&cp.BuildOptions{Builders: []cp.RegisterBuilder{word{}.RegisterBuilder()}}, blk(dir("a"), blk(dir("w", "b c"), dir("d"))), dir("content_by_lua_block", "x")), btoa(true) + "a {\n    W(b c)\n}\ncontent_by_lua_block x;"},
		{built(&cp.BuildOptions{Builders: []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}}, blk(dir("a"), blk(dir("w", "b c"), dir("d"))), dir("content_by_lua_block", "x")), btoa(true) + "a {\n    w \"b c\" {\n        d;\n    }\n}\ncontent_by_lua_block {x}"},
		// deep blocks
		{built(&cp.BuildOptions{Indent: 60}, blk(dir("a"), blk(dir("b"), dir("d")))), btoa(true) + "a {\n" + strings.Repeat(" ", 60) + "b {\n" + strings.Repeat(" ", 120) + "d;\n" + strings.Repeat(" ", 60) + "}\n}"},
		{built(&cp.BuildOptions{Indent: 51}, blk(dir("a"), blk(dir("b"), dir("d")))), btoa(true) + "a {\n" + strings.Repeat(" ", 51) + "b {\n" + strings.Repeat(" ", 102) + "d;\n" + strings.Repeat(" ", 51) + "}\n}"},
		{built(&cp.BuildOptions{Indent: 60, Tabs: true}, blk(dir("a"), blk(dir("b"), dir("d")))), btoa(true) + "a {\n\tb {\n\t\td;\n\t}\n}"},
		{built(&cp.BuildOptions{Indent: 120}, blk(dir("a"), blk(dir("b"), dir("d")))), btoa(true) + "a {\n" + strings.Repeat(" ", 120) + "b {\n" + strings.Repeat(" ", 240) + "d;\n" + strings.Repeat(" ", 120) + "}\n}"},
	}
}

// T02_History: any 3 of 35 calls one after the other - parsing the same file with other contents (faulty ones too) and the same contents
// with other options, included files and functions for opening and finding files; lexing, parsing and building with none, one or both of two
// extensions; building with other layouts - and the first once more: each gives what it gives alone, as written in the
// harness, and what it gave stays that after the others.
func T02_History() {
	all := ops()
	var shows [4]func() string
	var ks [4]int
	for i := range ks {
		if i < 3 {
			ks[i] = nd.Pick(len(all))
		} else {
			ks[i] = ks[0]
		}
		shows[i] = all[ks[i]].run()
		got := shows[i]()
		nd.Show("call "+itoa(ks[i]), got)
		nd.Assert(got == all[ks[i]].want, "a call does not give what it gives alone")
	}
	for i, k := range ks {
		nd.Assert(shows[i]() == all[k].want, "a result changed after it was given")
	}
	nd.Cover("end")
}
