package h

import (
	"errors"
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["C01_Schedule"] = C01_Schedule
	All["C01_Lex"] = C01_Lex
	All["C01_Leak"] = C01_Leak
	All["C01_Many"] = C01_Many
	All["C01_Combined"] = C01_Combined
	All["C01_Race"] = C01_Race
}

var capacities = []int{0, 1, 2, 2048}

// withCap runs f with a token channel of the given capacity.
func withCap(n int, f func()) {
	cp.SetTokenChanCap(n)
	f()
	cp.SetTokenChanCap(cp.TokenChanCap)
}

// watched is an open file that must be closed once and not be read afterwards.
type watched struct {
	r      io.Reader
	open   *int
	closed bool
}

func (w *watched) Read(b []byte) (int, error) {
	nd.Assert(!w.closed, "a file is read after it has been closed")
	return w.r.Read(b)
}

func (w *watched) Close() error {
	nd.Assert(!w.closed, "a file is closed twice")
	w.closed = true
	*w.open--
	return nil
}

func parseFull(text string, o cp.ParseOptions) string {
	v := oneFile(text)
	v.add("/etc/nginx/inc", "i {j;}")
	open := 0
	o.Open = func(p string) (io.ReadCloser, error) {
		f, err := v.open(p)
		if err != nil {
			return nil, err
		}
		open++
		return &watched{r: f, open: &open}, nil
	}
	o.Glob = noGlob
	o.LexOptions = luaLex()
	p, err := cp.Parse(mainConf, &o)
	nd.Assert(open == 0, "a file is left open")
	if err != nil {
		return "error " + what(err) + "@" + itoa(lineOf(err))
	}
	return showPayload(p)
}

// C01_Schedule: parsing 5 texts (one with an arbitrary character) with channel capacities 0, 1, 2 and 2048 under
// every schedule of lexer, Lua lexer and parser with at most 2 (thorough: 3) preemptions gives the result of the
// default schedule.
func C01_Schedule() {
	s := []string{"a b;c{d;}", "a{b" + nd.StrIn(1, ";}{\"") + "}", "a;}b;", "content_by_lua_block {x}c;", "include inc;q;"}[nd.Pick(5)]
	o := cp.ParseOptions{StopParsingOnError: nd.Pick(2) == 1, ParseComments: true}
	want := parseFull(s, o)
	nd.Show("text", s)
	n := capacities[nd.Pick(len(capacities))]
	nd.Show("capacity", itoa(n))
	got := ""
	nd.ScheduleOn(tiered(2, 3))
	withCap(n, func() { got = parseFull(s, o) })
	nd.ScheduleOff()
	nd.Assert(got == want, "the result depends on the schedule or the capacity")
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	nd.Cover("end")
}

// C01_Lex: the tokens of 3 texts, with an arbitrary character in each, under every capacity and every schedule with
// at most 2 (thorough: 4) preemptions.
func C01_Lex() {
	s := []string{"a b;", "a{\n}\"", "content_by_lua_block {"}[nd.Pick(3)] + nd.StrIn(1, "c;}\n\"") + "}"
	nd.Show("text", s)
	want := lexAll(strings.NewReader(s), luaLex())
	n := capacities[nd.Pick(len(capacities))]
	nd.ScheduleOn(tiered(2, 4))
	withCap(n, func() { sameTokens(lexAll(strings.NewReader(s), luaLex()), want) })
	nd.ScheduleOff()
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	nd.Cover("end")
}

// C01_Leak: parsing 4 (thorough: 5) characters of every class in 6 surroundings (in ordinary, map-like, ignored and
// rejected blocks, after an include, after a Lua directive), with capacities 0 and 1, both error modes, with and
// without comments and combining: no goroutine is left, and the result is that of the default capacity.
func C01_Leak() {
	pre := []string{"", "map $a $b {", "ig {", "events {nope;", "include inc;include none;", "content_by_lua_block "}
	s := pre[nd.Pick(len(pre))] + nd.StrIn(tiered(3, 5), "a{};\n#\"") + ";z;y;x;w;v;u;"
	nd.Show("text", s)
	o := cp.ParseOptions{StopParsingOnError: nd.Pick(2) == 1, ErrorOnUnknownDirectives: nd.Pick(2) == 1, IgnoreDirectives: []string{"ig"}, CombineConfigs: nd.Pick(2) == 1}
	want := parseFull(s, o)
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	got := ""
	withCap(nd.Pick(2), func() { got = parseFull(s, o) })
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind with a small channel")
	nd.Show("payload", got)
	nd.Assert(got == want, "the result depends on the capacity")
	nd.Cover("end")
}

// C01_Many: more tokens than the channel holds (a count next to any constant of the code) around an error, in both
// error modes.
func C01_Many() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(2100, 20000))
	bad := []string{"}", "\"", "a{;}", "a", "include none;", "map $a $b { a; }", "server_name content_by_lua_block x;", "set_by_lua_block;"}
	s := strings.Repeat("a;", n) + bad[nd.Pick(len(bad))] + strings.Repeat("b;", n)
	o := cp.ParseOptions{StopParsingOnError: nd.Pick(2) == 1}
	got := parseFull(s, o)
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
	want := ""
	withCap(1<<16, func() { want = parseFull(s, o) })
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind with a large channel")
	nd.Assert(got == want, "the result depends on the capacity")
	nd.Cover("end")
}

// C01_Combined: combining payloads of up to 3 files whose include lists are arbitrary (also out of range, repeated
// and cyclic) leaves no goroutine behind and ends.
func C01_Combined() {
	p := &cp.Payload{}
	n := 1 + nd.Pick(3)
	for i := 0; i < n; i++ {
		var ds cp.Directives
		for k := nd.Pick(3); k > 0; k-- {
			d := &cp.Directive{Directive: "include", Args: []string{"x"}, Includes: []int{nd.Pick(5) - 1}}
			if nd.Pick(2) == 1 {
				d = &cp.Directive{Directive: "a", Block: cp.Directives{d}}
			}
			ds = append(ds, d)
		}
		p.Config = append(p.Config, cp.Config{File: itoa(i), Parsed: ds})
	}
	nd.ScheduleOn(1)
	_, err := p.Combined()
	nd.ScheduleOff()
	if err != nil {
		nd.Cover("error")
	} else {
		nd.Cover("fine")
	}
	nd.Assert(nd.Quiesce() == 0, "a goroutine is left behind")
}

// C01_Race: while the lexer and the parser run, and while the caller uses the result, no memory is accessed by two
// goroutines without synchronisation: 6 texts, also failing ones, capacities 0 and 2048, reading every error.
func C01_Race() {
	s := []string{"a b;c{d;}", "a{", "a;}b;", "content_by_lua_block {x}c;", "content_by_lua_block x", "include inc;q;"}[nd.Pick(6)]
	o := cp.ParseOptions{StopParsingOnError: nd.Pick(2) == 1, ParseComments: true, CombineConfigs: nd.Pick(2) == 1}
	cp.SetTokenChanCap([]int{0, 2048}[nd.Pick(2)])
	nd.RaceOn()
	nd.ScheduleOn(1)
	nd.Show("result", parseFull(s, o))
	cp.SetTokenChanCap(cp.TokenChanCap)
	nd.Cover("end")
}

var _ = errors.New
var _ io.Reader
