package h

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["T01_Fields"] = T01_Fields
	All["T01_Shapes"] = T01_Shapes
	All["T01_Three"] = T01_Three
	All["T01_Parsed"] = T01_Parsed
	All["T01_Scaled"] = T01_Scaled
	All["T02_Parse"] = T02_Parse
	All["T02_Build"] = T02_Build
	All["T02_Share"] = T02_Share
	All["T02_Spare"] = T02_Spare
	All["T03_Known"] = T03_Known
	All["T03_Any"] = T03_Any
	All["T03_Default"] = T03_Default
	All["T03_History"] = T03_History
	All["T03_Parse"] = T03_Parse
	All["T03_ParseDefault"] = T03_ParseDefault
	All["T03_Modules"] = T03_Modules
	All["T04_Releases"] = T04_Releases
}

// same is structural equality.
func same(a, b *cp.Directive) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Directive != b.Directive || a.Line != b.Line || a.File != b.File || a.IsMapBlockParameter != b.IsMapBlockParameter {
		return false
	}
	if len(a.Args) != len(b.Args) || len(a.Includes) != len(b.Includes) || len(a.Block) != len(b.Block) {
		return false
	}
	if (a.Block == nil) != (b.Block == nil) || (a.Comment == nil) != (b.Comment == nil) {
		return false
	}
	if a.Comment != nil && *a.Comment != *b.Comment {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	for i := range a.Includes {
		if a.Includes[i] != b.Includes[i] {
			return false
		}
	}
	for i := range a.Block {
		if !same(a.Block[i], b.Block[i]) {
			return false
		}
	}
	return true
}

// anyPart is a directive all of whose parts are arbitrary within small sizes; fuel is the number of parts that are.
func anyPart(shape bool, depth, kids int) *cp.Directive {
	d := &cp.Directive{Directive: "d", Line: 1}
	if !shape {
		d.Directive = nd.StrIn(1, "ab")
		d.Line = int(nd.Int64())
		d.File = nd.StrIn(1, "ab")
		d.Args = []string{nd.StrIn(1, "ab"), nd.StrIn(1, "ab")}
		d.Includes = []int{int(nd.Int64()), int(nd.Int64())}
		d.IsMapBlockParameter = nd.Bool()
		c := nd.StrIn(1, "ab")
		d.Comment = &c
		return d
	}
	switch nd.Pick(5) {
	case 0:
		d.Args = [][]string{nil, {}, {""}, {"", "x"}}[nd.Pick(4)]
	case 1:
		d.Includes = [][]int{nil, {}, {0}, {0, 1}}[nd.Pick(4)]
	case 2:
		d.Comment = []*string{nil, comment(""), comment("c")}[nd.Pick(3)]
	case 3:
		d.Directive, d.File = []string{"", "d"}[nd.Pick(2)], []string{"", "d"}[nd.Pick(2)]
	case 4:
		if depth == 0 {
			break
		}
		d.Block = cp.Directives{}
		for i := nd.Pick(kids + 1); i > 0; i-- {
			if kids == 2 && nd.Pick(2) == 0 {
				d.Block = append(d.Block, nil)
			} else {
				d.Block = append(d.Block, anyPart(true, depth-1, 1))
			}
		}
	}
	return d
}

func checkEqual(a, b *cp.Directive) {
	got, back, want := a.Equal(b), b.Equal(a), same(a, b)
	nd.Show("equal", btoa(got)+btoa(want))
	nd.Assert(got == want, "Equal is not structural equality")
	nd.Assert(back == want, "Equal is not symmetric")
	nd.Assert(a.Equal(a) && b.Equal(b), "Equal is not reflexive")
	nd.Cover("end")
}

// T01_Fields: two directives, bare or within a block at any of 3 positions, whose name, file, comment, two arguments, two include indices
// (64 bits), line (64 bits) and mark are arbitrary.
func T01_Fields() {
	a, b := anyPart(false, 0, 0), anyPart(false, 0, 0)
	switch nd.Pick(4) {
	case 1:
		a, b = &cp.Directive{Block: cp.Directives{a}}, &cp.Directive{Block: cp.Directives{b}}
	case 2:
		c := &cp.Directive{Directive: "c"}
		a, b = &cp.Directive{Block: cp.Directives{c, a, c}}, &cp.Directive{Block: cp.Directives{c, b, c}}
	case 3:
		c := &cp.Directive{Directive: "c"}
		a, b = &cp.Directive{Block: cp.Directives{c, a}}, &cp.Directive{Block: cp.Directives{c, b}}
	}
	checkEqual(a, b)
}

// T01_Shapes: two directives nested up to 1 (thorough: 2) deep with absent, empty and present arguments, includes, comments and blocks, with nil directives
// in blocks, or nil themselves.
func T01_Shapes() {
	var a, b *cp.Directive
	if nd.Pick(2) > 0 {
		a = anyPart(true, tiered(1, 2), 2)
	}
	if nd.Pick(2) > 0 {
		b = anyPart(true, tiered(1, 2), 2)
	}
	checkEqual(a, b)
}

// T01_Three: equality of three directives with an arbitrary character, line and include index each is transitive.
func T01_Three() {
	var d [3]*cp.Directive
	for i := range d {
		c := nd.StrIn(1, "ab")
		d[i] = &cp.Directive{Directive: "d", Line: int(nd.Int64()), Args: []string{nd.StrIn(1, "ab")}, Includes: []int{int(nd.Int64())}, Comment: &c}
		if nd.Pick(2) == 1 {
			d[i] = &cp.Directive{Directive: "b", Block: cp.Directives{d[i]}}
		}
	}
	if d[0].Equal(d[1]) && d[1].Equal(d[2]) {
		nd.Assert(d[0].Equal(d[2]), "Equal is not transitive")
		nd.Cover("equal")
	}
	nd.Cover("end")
}

// T01_Parsed: the directives parsed from two texts of 4 (thorough: 5) characters, or of one, are equal exactly when their trees are.
func T01_Parsed() {
	s := nd.StrIn(tiered(4, 5), "ab{}; #\n")
	t := s
	if nd.Pick(2) == 1 {
		t = []string{"a;", "a b;", "a{}", "a{b;}", "#a", "\na;"}[nd.Pick(6)]
	}
	p1, _ := lenient(s, cp.LexOptions{})
	p2, _ := lenient(t, cp.LexOptions{})
	nd.Show("text", s)
	a := &cp.Directive{Block: p1.Config[0].Parsed}
	b := &cp.Directive{Block: p2.Config[0].Parsed}
	checkEqual(a, b)
	if s == t {
		nd.Assert(a.Equal(b), "the same text has unequal directives")
	}
}

// T01_Scaled: directives with a number of arguments, includes, statements or levels next to any constant of the code, which differ in one or not.
func T01_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(300, 3000))
	k := nd.Pick(4)
	at := []int{-1, 0, n / 2, n - 1}[nd.Pick(4)]
	mk := func(odd bool) *cp.Directive {
		top := &cp.Directive{Directive: "d"}
		in := top
		for i := 0; i < n; i++ {
			x := "x"
			if odd && i == at {
				x = "y"
			}
			switch k {
			case 0:
				top.Args = append(top.Args, x)
			case 1:
				top.Includes = append(top.Includes, i+len(x)*int(x[0]))
			case 2:
				top.Block = append(top.Block, &cp.Directive{Directive: x})
			case 3:
				in.Block = cp.Directives{{Directive: x}}
				in = in.Block[0]
			}
		}
		return top
	}
	a, b := mk(false), mk(true)
	nd.Assert(a.Equal(b) == (at < 0) && b.Equal(a) == (at < 0), "Equal is not structural equality")
	nd.Cover("end")
}

// optionsText renders what can be seen of parse options.
func optionsText(o *cp.ParseOptions) string {
	s := btoa(o.ErrorCallback == nil) + btoa(o.Open == nil) + btoa(o.Glob == nil) + btoa(o.StopParsingOnError) + btoa(o.CombineConfigs) + btoa(o.SingleFile) +
		btoa(o.ParseComments) + btoa(o.ErrorOnUnknownDirectives) + btoa(o.SkipDirectiveContextCheck) + btoa(o.SkipDirectiveArgsCheck)
	s += itoa(len(o.DirectiveSources)) + "," + itoa(cap(o.DirectiveSources)) + btoa(o.DirectiveSources == nil)
	for _, f := range o.DirectiveSources[:cap(o.DirectiveSources)] {
		s += btoa(f == nil)
	}
	s += itoa(len(o.LexOptions.Lexers)) + "," + itoa(cap(o.LexOptions.Lexers)) + btoa(o.LexOptions.Lexers == nil)
	for _, f := range o.LexOptions.Lexers[:cap(o.LexOptions.Lexers)] {
		s += btoa(f == nil)
	}
	s += itoa(len(o.IgnoreDirectives)) + "," + itoa(cap(o.IgnoreDirectives)) + btoa(o.IgnoreDirectives == nil)
	for _, f := range o.IgnoreDirectives[:cap(o.IgnoreDirectives)] {
		s += q(f)
	}
	return s
}

// sharedOptions gives options of one of several kinds.
func sharedOptions(v *vfs) *cp.ParseOptions {
	o := &cp.ParseOptions{Open: v.open}
	switch nd.Pick(7) {
	case 1:
		o.Glob = noGlob
		o.IgnoreDirectives = append(make([]string, 0, 4), "ig", "a")
	case 2:
		o.LexOptions = luaLex()
		o.CombineConfigs = true
	case 3:
		o.DirectiveSources = append(make([]cp.MatchFunc, 0, 4), cp.MatchLuaLatest)
		o.ErrorOnUnknownDirectives = true
	case 4:
		o.StopParsingOnError = true
		o.ParseComments = true
	case 5:
		o.ErrorCallback = func(err error) any { return err.Error() }
		o.SingleFile = true
		o.LexOptions = cp.LexOptions{Lexers: append(make([]cp.RegisterLexer, 0, 3), (&cp.Lua{}).RegisterLexer())}
	case 6:
		o.SkipDirectiveArgsCheck, o.SkipDirectiveContextCheck = true, true
		o.ParseComments, o.CombineConfigs = true, true
	}
	return o
}

func payloadOf(v *vfs, o *cp.ParseOptions) string {
	p, err := cp.Parse(mainConf, o)
	if err != nil {
		return "error " + err.Error()
	}
	return dump(p)
}

// T02_Parse: 7 kinds of options, 4 (thorough: 5) characters in 4 surroundings: the options are as before, and a second parse with them, and one with fresh
// ones, give the same payload.
func T02_Parse() {
	v := &vfs{}
	pre := []string{"", "ig {", "include b;", "content_by_lua_block {x}"}[nd.Pick(4)]
	v.add(mainConf, pre+nd.StrIn(tiered(4, 5), "a{};\n#\"")+"z;")
	v.add("/etc/nginx/b", "e{}")
	nd.Show("text", v.texts[0])
	o := sharedOptions(v)
	before := optionsText(o)
	fresh := *o
	fresh.LexOptions.Lexers = nil
	if len(o.LexOptions.Lexers) > 0 {
		fresh.LexOptions = luaLex()
	}
	want := payloadOf(v, &fresh)
	got := payloadOf(v, o)
	nd.Assert(optionsText(o) == before, "Parse changed the options")
	nd.Assert(got == want && payloadOf(v, o) == want, "the result depends on earlier calls")
	nd.Assert(optionsText(o) == before, "Parse changed the options")
	nd.Cover("end")
}

func buildOptionsText(o *cp.BuildOptions) string {
	s := itoa(o.Indent) + btoa(o.Tabs) + btoa(o.Header) + itoa(len(o.Builders)) + "," + itoa(cap(o.Builders))
	for _, b := range o.Builders[:cap(o.Builders)] {
		s += btoa(b == nil)
	}
	return s
}

func anyBuildOptions() *cp.BuildOptions {
	switch nd.Pick(4) {
	case 1:
		return &cp.BuildOptions{Builders: append(make([]cp.RegisterBuilder, 0, 3), (&cp.Lua{}).RegisterBuilder())}
	case 2:
		return &cp.BuildOptions{Tabs: true, Header: true}
	case 3:
		return &cp.BuildOptions{Indent: 2, Builders: []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}}
	}
	return &cp.BuildOptions{}
}

// samplePayload has every kind of directive.
func samplePayload(c string) *cp.Payload {
	v := &vfs{}
	v.add(mainConf, "a \"."+c+".\" 'x y'; # c\nif ( $a = b ) {\n include b;\n}\nmap $a $b { default 1; }\ncontent_by_lua_block { x }\ninclude b;")
	v.add("/etc/nginx/b", "e{}")
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: v.open, ParseComments: true, DirectiveSources: []cp.MatchFunc{nothingKnown}, LexOptions: luaLex()})
	nd.Assert(err == nil && len(p.Errors) == 0 && len(p.Config) == 2, "cannot parse")
	return p
}

// use applies one of the functions that take a payload.
func use(k int, p *cp.Payload, o *cp.BuildOptions) string {
	switch k {
	case 0:
		var b bytes.Buffer
		nd.Assert(cp.Build(&b, p.Config[0], o) == nil, "cannot build")
		return b.String()
	case 1:
		sc := &cp.StringsCreator{}
		nd.Assert(cp.BuildInto(p, sc, o) == nil, "cannot build")
		s := ""
		for _, f := range sc.Files {
			s += f.Name + f.String()
		}
		return s
	case 2:
		c, err := p.Combined()
		nd.Assert(err == nil, "cannot combine")
		return dump(c)
	case 3:
		b, err := json.Marshal(p)
		nd.Assert(err == nil, "cannot encode")
		return string(b)
	case 4:
		s := ""
		for _, d := range p.Config[0].Parsed {
			s += d.String() + btoa(d.Equal(d)) + btoa(d.IsBlock()) + btoa(d.IsInclude()) + btoa(d.IsComment())
		}
		return s
	}
	panic("use")
}

// T02_Build: 4 kinds of options, a payload with every kind of directive around 2 arbitrary characters; building (to a writer, a creator, a
// directory), combining and encoding leave payload and options as they were and do not influence each other.
func T02_Build() {
	p := samplePayload(nd.StrIn(tiered(1, 2), "a\\'# "))
	o := anyBuildOptions()
	before, payload := buildOptionsText(o), dump(p)
	k := nd.Pick(6)
	if k == 5 {
		s := nd.Scratch()
		p.Config[0].File, p.Config[1].File = "x", "y"
		payload = dump(p)
		nd.Assert(cp.BuildFiles(*p, s, o) == nil, "cannot build")
		k = 0
	}
	want := use(k, p, o)
	nd.Assert(dump(p) == payload, "the payload was changed")
	nd.Assert(buildOptionsText(o) == before, "the options were changed")
	use(nd.Pick(5), p, o)
	nd.Assert(use(k, p, o) == want, "the result depends on earlier calls")
	nd.Assert(dump(p) == payload, "the payload was changed")
	nd.Assert(buildOptionsText(o) == before, "the options were changed")
	nd.Cover("end")
}

// T02_Share: two concurrent calls sharing options, payloads and extensions - any two of parsing (7 kinds of options), lexing, building to a
// writer or creator (4 kinds of options), combining, encoding, comparing: no data race, and the results are those of the calls alone. One schedule (thorough: for parsing and lexing, all without preemption); races are
// accesses not ordered by synchronisation, whichever comes first.
func T02_Share() {
	v := &vfs{}
	v.add(mainConf, "a b;map $a $b{c d;}content_by_lua_block {x}server{listen;}include b;")
	v.add("/etc/nginx/b", "e{}")
	open := func(p string) (io.ReadCloser, error) {
		for i, n := range v.names {
			if n == p {
				return rc{strings.NewReader(v.texts[i])}, nil
			}
		}
		return nil, errNotFound
	}
	k1 := nd.Pick(7)
	k2 := k1 + nd.Pick(7-k1)
	parses := k1 == 5 || k2 == 5 || k1 == 6 || k2 == 6
	po := &cp.ParseOptions{}
	if parses {
		po = sharedOptions(v)
	}
	po.Open = open
	bo := &cp.BuildOptions{}
	if k1 < 2 || k2 < 2 {
		bo = anyBuildOptions()
	}
	p := samplePayload("c")
	run := func(k int) string {
		switch k {
		case 5:
			return payloadOf(nil, po)
		case 6:
			return showToks(lexAll(strings.NewReader(v.texts[0]), po.LexOptions))
		}
		return use(k, p, bo)
	}
	want1, want2 := run(k1), run(k2)
	// options that have been used before are not the ones to share
	bo2, po2 := *bo, *po
	if bo.Builders != nil {
		bo2.Builders = []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}
	}
	if po.LexOptions.Lexers != nil {
		po2.LexOptions = luaLex()
	}
	bo, po = &bo2, &po2
	nd.RaceOn()
	if nd.Tier() > 0 && k1 >= 4 {
		nd.ScheduleOn(0)
	}
	res := make(chan string)
	go func() { res <- run(k1) }()
	got2 := run(k2)
	got1 := <-res
	nd.ScheduleOff()
	nd.Assert(got1 == want1 && got2 == want2, "a concurrent call changes the result")
	nd.Cover("end")
}

// T02_Spare: slices of options with room for more elements, and of masks given by up to 2 sources of directives, are not written to beyond their
// length, by parsing 4 texts and building.
func T02_Spare() {
	v := oneFile([]string{"a b;", "nope;ig{a;}", "content_by_lua_block {x}", "include b;"}[nd.Pick(4)])
	v.add("/etc/nginx/b", "e{}")
	// tables with room for more masks, some of which know the same directives
	table := []uint{mMain | mHTTP | 1, 7, 7, mMain | mHTTP | m1More, 7, 7}
	known := func(i, n int, names string) cp.MatchFunc {
		return func(name string) ([]uint, bool) {
			if strings.Contains(names, " "+name+" ") {
				return table[i : i+n], true
			}
			return nil, false
		}
	}
	m := make([]cp.MatchFunc, 1, 5)
	m[0] = cp.MatchLuaLatest
	for i := nd.Pick(3); i > 0; i-- {
		m = append(m, known(3*nd.Pick(2), 1, []string{" a nope e ", " e a ig "}[nd.Pick(2)]))
	}
	if nd.Pick(2) == 1 {
		m = m[1:]
	}
	ig := []string{"ig", "spare"}[:1]
	lx := make([]cp.RegisterLexer, 1, 2)
	lx[0] = (&cp.Lua{}).RegisterLexer()
	bs := make([]cp.RegisterBuilder, 1, 2)
	bs[0] = (&cp.Lua{}).RegisterBuilder()
	o := &cp.ParseOptions{Open: v.open, DirectiveSources: m, IgnoreDirectives: ig, LexOptions: cp.LexOptions{Lexers: lx}, CombineConfigs: nd.Pick(2) == 1}
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	var b bytes.Buffer
	nd.Assert(cp.Build(&b, p.Config[0], &cp.BuildOptions{Builders: bs}) == nil, "cannot build")
	for i, x := range table {
		nd.Assert(i%3 == 0 || x == 7, "a table is written to")
	}
	nd.Assert(m[:len(m)+1][len(m)] == nil && ig[:2][1] == "spare" && lx[:2][1] == nil && bs[:2][1] == nil, "written beyond the length of an option")
	nd.Cover("end")
}

type source struct {
	name string
	f    cp.MatchFunc
}

var sources = []source{{"default", cp.DefaultDirectivesMatchFunc}, {"plus latest", cp.MatchNginxPlusLatest}, {"njs", cp.MatchNjsLatest}, {"otel", cp.MatchOtelLatest},
	{"plus 30", cp.MatchNginxPlusR30}, {"plus 31", cp.MatchNginxPlusR31}, {"plus 33", cp.MatchNginxPlusR33}, {"plus 34", cp.MatchNginxPlusR34}, {"plus 35", cp.MatchNginxPlusR35},
	{"plus 36", cp.MatchNginxPlusR36}, {"plus 37", cp.MatchNginxPlusR37}, {"oss 124", cp.MatchOss124}, {"oss 126", cp.MatchOss126}, {"oss latest", cp.MatchOssLatest},
	{"waf 4", cp.MatchAppProtectWAFv4}, {"waf 5", cp.MatchAppProtectWAFv5}, {"geoip2", cp.MatchGeoip2Latest}, {"headers more", cp.MatchHeadersMoreLatest}, {"lua", cp.MatchLuaLatest}}

const (
	allContexts = mMain | mEvents | mMgmt | mHTTP | mSrv | mLoc | mUps | mSif | mLif | mLmt | mOIDC | mMail | mMailSrv | mStream | mStrSrv | mStrUps
	mDirect     = 0x10000
	allArgs     = 0xff | mExpr | mFlag | mAny | m1More | m2More
)

// answer checks one answer of a source.
func answer(s source, n string) []uint {
	ms, ok := s.f(n)
	nd.Assert(ok == (len(ms) > 0), s.name+": "+n+": the answer and the masks disagree")
	for _, m := range ms {
		nd.Assert(m&^uint(allContexts|allArgs|mBlock|mDirect) == 0, s.name+": "+n+": a mask with unknown bits")
		nd.Assert(m&allArgs != 0, s.name+": "+n+": a mask without arguments")
	}
	return ms
}

// T03_Known: every name of every table, in all 19 sources.
func T03_Known() {
	n := nd.TableStr()
	for _, s := range sources {
		answer(s, n)
	}
	nd.Cover("end")
}

// T03_Any: any string of up to 4 (thorough: 6) letters and underscores, and of 2 bytes, in all 19 sources.
func T03_Any() {
	n := nd.StrIn(nd.Pick(tiered(5, 7)), "abcdefghijklmnopqrstuvwxyz_")
	if nd.Pick(2) == 0 {
		n = nd.Str(2)
	}
	answer(sources[nd.Pick(len(sources))], n)
	nd.Cover("end")
}

func masksText(ms []uint) string {
	s := ""
	for _, m := range ms {
		s += itoa(int(m)) + ","
	}
	return s
}

func checkDefault(n string) {
	d, ok := cp.DefaultDirectivesMatchFunc(n)
	any, match := false, false
	for _, s := range sources[1:4] {
		ms, o := s.f(n)
		any = any || o
		match = match || o && masksText(ms) == masksText(d)
	}
	nd.Assert(ok == any, "the default source knows "+n+" although none of its parts does, or the reverse")
	nd.Assert(!ok || match, "the default source has masks of its own for "+n)
	nd.Cover("end")
}

// T03_Default: the default source against its parts, for every name of every table, every string constant, and any string of up to 4 (thorough: 6) letters
// and underscores.
func T03_Default() {
	switch nd.Pick(3) {
	case 0:
		checkDefault(nd.TableStr())
	case 1:
		checkDefault(nd.CodeStr())
	case 2:
		checkDefault(nd.StrIn(nd.Pick(tiered(5, 7)), "abcdefghijklmnopqrstuvwxyz_"))
	}
}

// T03_History: looking up, parsing and looking up again any of 8 names in all sources, after lookups of any string of 3 characters, gives the same answers.
func T03_History() {
	names := []string{"listen", "js_import", "otel_trace", "nope", "", "content_by_lua_block", "geoip2", "if"}
	n := names[nd.Pick(len(names))]
	var before []string
	for _, s := range sources {
		before = append(before, masksText(answer(s, n)))
	}
	x := nd.StrIn(3, "abcdefghijklmnopqrstuvwxyz")
	for _, s := range sources {
		s.f(x)
	}
	v := oneFile(n + " a;http{" + n + " {}}" + n + ";")
	o := &cp.ParseOptions{Open: v.open, ErrorOnUnknownDirectives: true}
	for _, s := range sources {
		o.DirectiveSources = append(o.DirectiveSources, s.f)
	}
	if nd.Pick(2) == 1 {
		o.DirectiveSources = nil
	}
	_, err := cp.Parse(mainConf, o)
	_ = err
	for i, s := range sources {
		nd.Assert(masksText(answer(s, n)) == before[i], s.name+": the answer for "+n+" has changed")
	}
	nd.Cover("end")
}

// T03_Parse: up to 3 masks of 64 arbitrary bits, from one or two sources that hand out the same memory each time, are the same, and so is the
// memory behind them, after parsing their directive in any of 5 blocks, with and without checks of contexts and arguments.
func T03_Parse() {
	n := 1 + nd.Pick(3)
	mem := make([]uint, n, n+2)
	var was [3]uint
	for i := range mem {
		mem[i] = uint(nd.Uint64())
		was[i] = mem[i]
	}
	mem[:n+2][n], mem[:n+2][n+1] = 71, 72
	split := nd.Pick(n + 1)
	o := &cp.ParseOptions{DirectiveSources: []cp.MatchFunc{
		func(d string) ([]uint, bool) { return mem[:split], d == "dd" && split > 0 },
		func(d string) ([]uint, bool) { return mem[split:], d == "dd" && split < n },
	}}
	o.SkipDirectiveContextCheck, o.SkipDirectiveArgsCheck = nd.Pick(2) == 1, nd.Pick(2) == 1
	c := []string{"%", "http{%}", "http{server{%}}", "stream{server{%}}", "none{%}"}[nd.Pick(5)]
	d := []string{"dd;", "dd on;", "dd a b{}"}[nd.Pick(3)]
	o.Open = oneFile(strings.Replace(c, "%", d, 1)).open
	_, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	for i := range mem {
		nd.Assert(mem[i] == was[i], "a mask has changed")
	}
	nd.Assert(mem[:n+2][n] == 71 && mem[:n+2][n+1] == 72, "the memory behind the masks is written to")
	nd.Cover("end")
}

// T03_ParseDefault: every name of every table, as a statement with 0 to 2 arguments in 11 blocks, parsed against the default source or all sources:
// no answer of any source changes.
func T03_ParseDefault() {
	n := nd.TableStr()
	var before []string
	for _, s := range sources {
		ms, _ := s.f(n)
		before = append(before, masksText(ms))
	}
	o := &cp.ParseOptions{SingleFile: true}
	if nd.Pick(2) == 1 {
		for _, s := range sources {
			o.DirectiveSources = append(o.DirectiveSources, s.f)
		}
	}
	d := n + []string{"", " on", " a b"}[nd.Pick(3)] + ";"
	s := strings.ReplaceAll("%events{%}mail{%server{%}}stream{%server{%}upstream a{%}}http{%upstream b{%}server{%if (a){%}location / {%}}}", "%", d)
	o.Open = oneFile(s).open
	_, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	for i, s := range sources {
		ms, _ := s.f(n)
		nd.Assert(masksText(ms) == before[i], s.name+": the answer for "+n+" has changed")
	}
	nd.Cover("end")
}

// T03_Modules: every name of every table is known to the sources of one module only, or only to sources of NGINX itself.
func T03_Modules() {
	n := nd.TableStr()
	groups := map[string]bool{}
	g := ""
	for _, s := range sources[1:] {
		if _, ok := s.f(n); ok {
			k := s.name
			if i := strings.IndexByte(k, ' '); i > 0 {
				k = k[:i]
			}
			if k == "oss" {
				k = "plus"
			}
			groups[k] = true
			g += s.name + ","
		}
	}
	nd.Show("sources", g)
	nd.Assert(len(groups) == 1, n+" is known to the sources of none or more than one")
	nd.Cover("end")
}

// releases are pairs of sources of an earlier and a later release of the same product, the later of which may drop some names.
var releases = []struct {
	a, b  source
	drops []string
}{
	{sources[4], sources[5], nil}, {sources[5], sources[6], nil}, {sources[6], sources[7], nil}, {sources[7], sources[8], nil}, {sources[8], sources[9], nil},
	{sources[9], sources[10], nil}, {sources[10], sources[1], nil}, {sources[11], sources[12], []string{"ssl"}}, {sources[12], sources[13], nil}, {sources[14], sources[15], nil},
	{sources[1], sources[10], nil}, // the newest release is the latest
	{sources[12], sources[6], nil}, // R33 is based on 1.27.2
}

// takes tells whether one of masks accepts n arguments (a flag's value if flag, an expression in parentheses if expr) and a block or none in a context.
func takes(masks []uint, ctx uint, n int, flag, expr, block bool) bool {
	ok := false
	for _, m := range masks {
		fit := nd.And(nd.And(m&ctx != 0, (m&mBlock != 0) == block), nd.Or(m&mExpr == 0, expr))
		args := nd.Or(nd.And(n <= 7, m>>uint(n)&1 != 0), nd.Or(m&mAny != 0, nd.Or(nd.And(n >= 1, m&m1More != 0), nd.And(n >= 2, m&m2More != 0))))
		args = nd.Or(args, nd.And(nd.And(flag, n == 1), m&mFlag != 0))
		ok = nd.Or(ok, nd.And(fit, args))
	}
	return ok
}

// T04_Releases: every name of every table, in any context and with any number of arguments, as a flag, an expression, a block or neither, in 12 pairs of sources.
func T04_Releases() {
	d := nd.TableStr()
	c := nd.Pick(len(refContexts))
	n := int(nd.Byte())
	nd.Assume(n < 16)
	flag, expr, block := nd.Bool(), nd.Bool(), nd.Bool()
	for _, r := range releases {
		am, aok := r.a.f(d)
		if !aok || contains(r.drops, d) {
			continue
		}
		bm, bok := r.b.f(d)
		nd.Assert(bok, r.b.name+" does not know "+d+" of "+r.a.name)
		a, b := takes(am, refContexts[c].bit, n, flag, expr, block), takes(bm, refContexts[c].bit, n, flag, expr, block)
		nd.Assert(nd.Or(!a, b), r.b.name+" does not accept "+d+" where "+r.a.name+" does")
	}
	nd.Cover("end")
}
