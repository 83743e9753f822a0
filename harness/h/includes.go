package h

import (
	"sort"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["P07_Patterns"] = P07_Patterns
	All["P07_Chars"] = P07_Chars
	All["P07_Graph"] = P07_Graph
	All["P07_Contexts"] = P07_Contexts
	All["P07_Glob"] = P07_Glob
	All["P07_Main"] = P07_Main
	All["P07_Scaled"] = P07_Scaled
	All["P08_Three"] = P08_Three
	All["P08_Four"] = P08_Four
	All["P08_Mixed"] = P08_Mixed
	All["P08_Scaled"] = P08_Scaled
	All["P09_Payload"] = P09_Payload
	All["P09_Empty"] = P09_Empty
	All["P09_Nested"] = P09_Nested
	All["P09_Parse"] = P09_Parse
	All["P09_Scaled"] = P09_Scaled
}

// istmt is an include statement within some blocks.
type istmt struct {
	ctx     []string
	pattern string
}

// ifile is a file of include statements.
type ifile struct {
	path string
	inc  []istmt
}

// text of the file: its include statements, one per line, and three probes of the context it is read in.
func (f ifile) text() string {
	s := ""
	for _, i := range f.inc {
		s += openCtx(i.ctx) + "include " + i.pattern + ";" + strings.Repeat("}", len(i.ctx)) + "\n"
	}
	return s + "cM;cH;cS;"
}

// probes tell the context: one directive that is fine in main, one in http and one in server.
func probes(n string) ([]uint, bool) {
	switch n {
	case "cM":
		return []uint{mMain | mNoArgs}, true
	case "cH":
		return []uint{mHTTP | mNoArgs}, true
	case "cS":
		return []uint{mSrv | mNoArgs}, true
	}
	return nil, false
}

// world is a set of files and what their patterns match.
type world struct {
	files   []ifile
	matches func(pattern string) []string // sorted or not
	bad     string                        // pattern the glob function fails for
	dir     string
}

func (w *world) find(path string) *ifile {
	for i := range w.files {
		if w.files[i].path == path {
			return &w.files[i]
		}
	}
	return nil
}

func (w *world) vfs() *vfs {
	v := &vfs{}
	for _, f := range w.files {
		v.add(f.path, f.text())
	}
	return v
}

// cleanJoin resolves p against dir.
func cleanJoin(dir, p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	var out []string
	for _, c := range strings.Split(dir+"/"+p, "/") {
		switch {
		case c == "" || c == ".":
		case c == ".." && len(out) > 0 && out[len(out)-1] != "..":
			out = out[:len(out)-1]
		case c == ".." && strings.HasPrefix(dir, "/"):
		default:
			out = append(out, c)
		}
	}
	s := strings.Join(out, "/")
	if strings.HasPrefix(dir, "/") {
		return "/" + s
	}
	if s == "" {
		return "."
	}
	return s
}

// expect computes what parsing main must give: per file its name, the indices of each include statement, errors.
func (w *world) expect(main string) string {
	type item struct {
		path string
		ctx  []string
	}
	q := []item{{main, nil}}
	index := map[string]int{main: 0}
	s := ""
	for k := 0; k < len(q); k++ {
		f := w.find(q[k].path)
		s += "[" + f.path
		errs := ""
		for line, i := range f.inc {
			pat := cleanJoin(w.dir, i.pattern)
			var to []string
			if strings.ContainsAny(pat, "*?[") {
				if pat == w.bad {
					errs += "!bad pattern@" + itoa(line+1)
				} else {
					to = append(to, w.matches(pat)...)
					sort.Strings(to)
				}
			} else if w.find(pat) != nil {
				to = []string{pat}
			} else {
				errs += "!no such file@" + itoa(line+1)
			}
			s += " +"
			for _, t := range to {
				if _, ok := index[t]; !ok {
					index[t] = len(q)
					q = append(q, item{t, append(append([]string{}, q[k].ctx...), i.ctx...)})
				}
				s += itoa(index[t]) + ","
			}
		}
		bit, known := ctxBit(q[k].ctx)
		for i, m := range []uint{mMain, mHTTP, mSrv} {
			if known && bit != m {
				errs += "!" + `"c` + string("MHS"[i]) + `" directive is not allowed here@` + itoa(len(f.inc)+1)
			}
		}
		s += errs + "]"
	}
	return s
}

// includesOf lists the include statements of a tree.
func includesOf(ds cp.Directives) string {
	s := ""
	for _, d := range ds {
		if d.Directive == "include" {
			s += " +"
			for _, n := range d.Includes {
				s += itoa(n) + ","
			}
		}
		s += includesOf(d.Block)
	}
	return s
}

type badPattern struct{}

func (badPattern) Error() string { return "bad pattern" }

// follow parses the world and compares with what is expected.
func (w *world) follow(main string) {
	v := w.vfs()
	nd.Show("main", v.texts[0])
	o := &cp.ParseOptions{Open: v.open, DirectiveSources: []cp.MatchFunc{probes}, Glob: func(p string) ([]string, error) {
		if p == w.bad {
			return nil, badPattern{}
		}
		return w.matches(p), nil
	}}
	want := w.expect(main)
	p, err := cp.Parse(main, o)
	nd.Show("expected", want)
	if err != nil {
		nd.Fail("error: " + err.Error())
	}
	got := ""
	for _, c := range p.Config {
		got += "[" + c.File + includesOf(c.Parsed)
		for _, e := range c.Errors {
			got += "!" + what(e.Error) + "@" + itoa(*e.Line)
		}
		got += "]"
	}
	nd.Show("got", got)
	nd.Assert(got == want, "files, inclusions or contexts differ")
	// every file read for its content once
	for i, n := range v.names {
		plain := 0
		for _, f := range w.files {
			for _, s := range f.inc {
				if cleanJoin(w.dir, s.pattern) == n {
					plain++
				}
			}
		}
		opened := 0
		for _, x := range v.opened {
			if x == n {
				opened++
			}
		}
		nd.Assert(opened <= plain+1, "file "+v.names[i]+" read again")
	}
	nd.Cover("end")
}

var ctxPick = [][]string{nil, {"http"}, {"http", "server"}, {"foo"}}

// P07_Patterns: the main file with 2 (thorough: 3) includes of 14 kinds of patterns (relative, absolute, with . and .., missing, wildcards with
// 0 to 3 matches in no order, failing) in 4 contexts, the files included having includes themselves.
func P07_Patterns() {
	pats := []string{"a", "./a", "d/../b", "../b", "/x/c", "gone", "*", "a?", "[ab]", "/x/*", "none*", "bad[", "d//c", "a*b"}
	w := &world{dir: "/etc/nginx", bad: "/etc/nginx/bad["}
	w.matches = func(p string) []string {
		switch p {
		case "/etc/nginx/*":
			return []string{"/etc/nginx/b", "/etc/nginx/a", "/etc/nginx/a9"}
		case "/etc/nginx/a?":
			return []string{"/etc/nginx/a9"}
		case "/etc/nginx/[ab]":
			return []string{"/etc/nginx/b", "/etc/nginx/a"}
		case "/x/*":
			return []string{"/x/c", "/etc/nginx/b"}
		}
		return nil
	}
	m := ifile{path: mainConf}
	for i := tiered(2, 3); i > 0; i-- {
		m.inc = append(m.inc, istmt{ctxPick[nd.Pick(4)], pats[nd.Pick(len(pats))]})
	}
	w.files = []ifile{m, {"/etc/nginx/a", []istmt{{[]string{"http"}, "b"}}}, {"/etc/nginx/b", []istmt{{nil, "/x/*c"}, {[]string{"server"}, "d/c"}}}, {"/x/c", nil}, {"/etc/nginx/a9", []istmt{{nil, "b"}}},
		{"/etc/nginx/d/c", []istmt{{nil, "a9gone"}}}, {"/etc/b", nil}}
	w.follow(mainConf)
}

// P07_Chars: include with 3 (thorough: 4) characters of pattern: what is handed to the glob and open functions.
func P07_Chars() {
	s := "include " + []string{"", "/"}[nd.Pick(2)] + nd.StrIn(tiered(3, 4), "a./*?[\\\"") + []string{";", " b;"}[nd.Pick(2)]
	nd.Show("text", s)
	r := &ref{check: accept}
	ns := r.parse(s, nil)
	if len(r.errs) > 0 || len(ns) != 1 || len(ns[0].args) == 0 {
		return
	}
	pat := cleanJoin("/etc/nginx", ns[0].args[0])
	v := oneFile(s)
	var globs []string
	p, err := cp.Parse(mainConf, &cp.ParseOptions{Open: v.open, Glob: func(p string) ([]string, error) { globs = append(globs, p); return nil, nil }, DirectiveSources: []cp.MatchFunc{nothingKnown}})
	nd.Assert(err == nil, "error returned")
	nd.Show("pattern", pat)
	if strings.ContainsAny(pat, "*?[") {
		nd.Assert(len(globs) == 1 && globs[0] == pat, "another pattern matched")
		nd.Assert(len(v.opened) == 1 && len(p.Errors) == 0, "pattern opened as a file")
		nd.Cover("pattern")
		return
	}
	nd.Assert(len(globs) == 0, "a file name was matched as a pattern")
	nd.Assert(len(v.opened) == 2 && v.opened[1] == pat, "another file opened")
	nd.Assert(len(p.Errors) == 1 && what(p.Errors[0].Error) == "no such file", "missing file not reported")
	nd.Cover("name")
}

// P07_Graph: 4 files where the main file includes 2 of the others, and file i those after it: 8 ways each, in an order
// chosen, by name or by a pattern.
func P07_Graph() {
	w := &world{dir: "/etc/nginx"}
	names := []string{mainConf, "/etc/nginx/c", "/etc/nginx/b", "/etc/nginx/a"}
	w.matches = func(p string) []string {
		// pattern /etc/nginx/[xyz] lists the files in the order given
		var out []string
		for _, c := range p[len("/etc/nginx/[") : len(p)-1] {
			out = append(out, "/etc/nginx/"+string(c))
		}
		return out
	}
	subsets := [][]string{{}, {"a"}, {"b", "a"}, {"[ab]"}, {"[ba]", "a"}, {"a", "a"}}
	tops := [][]string{{"a", "b"}, {"b", "a", "c"}, {"[cba]"}, {"c", "[ab]"}, {"c", "c", "a"}, {"[bc]", "a"}, {"c"}, {"[ca]", "[cab]", "b"}}
	pick := func(list [][]string, ctx int) (out []istmt) {
		l := list[nd.Pick(len(list))]
		for i, p := range l {
			c := ctxPick[0]
			if ctx > 0 && i == 0 {
				c = ctxPick[nd.Pick(ctx)]
			}
			out = append(out, istmt{c, p})
		}
		return
	}
	w.files = []ifile{{names[0], pick(tops, tiered(2, 3))}, {names[1], pick(subsets, tiered(2, 3))}, {names[2], pick([][]string{{}, {"a"}, {"[a]", "a"}}, tiered(2, 3))}, {names[3], nil}}
	w.follow(mainConf)
}

// P07_Contexts: sibling and nested blocks including different files, each of which includes again from a deeper block.
func P07_Contexts() {
	w := &world{dir: "/etc/nginx"}
	w.matches = func(string) []string { return []string{"/etc/nginx/g2", "/etc/nginx/g1"} }
	c := func() []string { return ctxPick[nd.Pick(3)] }
	w.files = []ifile{
		{mainConf, []istmt{{c(), "a"}, {c(), "b"}, {c(), []string{"c", "g*", "a"}[nd.Pick(3)]}}},
		{"/etc/nginx/a", []istmt{{[][]string{nil, {"server"}}[nd.Pick(2)], "d"}, {[][]string{nil, {"server"}}[nd.Pick(2)], "c"}}},
		{"/etc/nginx/b", []istmt{{[][]string{nil, {"server"}}[nd.Pick(2)], []string{"d", "g*"}[nd.Pick(2)]}}},
		{"/etc/nginx/c", nil}, {"/etc/nginx/d", nil}, {"/etc/nginx/g1", nil}, {"/etc/nginx/g2", nil},
	}
	w.follow(mainConf)
}

// P07_Glob: what a pattern matches is any list of up to 3 of 4 files, in any order, with repetitions; matched twice.
func P07_Glob() {
	var list []string
	for n := nd.Pick(4); n > 0; n-- {
		list = append(list, "/x/"+[]string{"a", "B", "a.conf", "a0"}[nd.Pick(4)])
	}
	before := strings.Join(list, " ")
	w := &world{dir: "/etc/nginx"}
	w.matches = func(p string) []string { return list }
	w.files = []ifile{{mainConf, []istmt{{nil, "/x/*"}, {[]string{"http"}, []string{"/x/?*", "/x/a0", "x/*"}[nd.Pick(3)]}}}, {"/x/a", nil}, {"/x/B", nil}, {"/x/a.conf", nil}, {"/x/a0", []istmt{{nil, "gone"}}}}
	w.follow(mainConf)
	nd.Assert(strings.Join(list, " ") == before, "the list returned by the glob function was modified")
}

// P07_Main: the main file named in 7 ways, with relative includes of 6 kinds.
func P07_Main() {
	mains := []string{"nginx.conf", "./nginx.conf", "conf/nginx.conf", "/nginx.conf", "../n/x.conf", "/a/b/../nginx.conf", "/etc/nginx/nginx.conf"}
	dirs := []string{".", ".", "conf", "/", "../n", "/a", "/etc/nginx"}
	k := nd.Pick(len(mains))
	pat := []string{"inc", "./inc", "../inc", "d/inc", "/inc", "*.inc"}[nd.Pick(6)]
	w := &world{dir: dirs[k]}
	full := cleanJoin(dirs[k], pat)
	w.matches = func(p string) []string {
		if p == full {
			return []string{"m2", "m1"}
		}
		return nil
	}
	w.files = []ifile{{mains[k], []istmt{{nil, pat}}}, {"m1", nil}, {"m2", nil}}
	if !strings.Contains(pat, "*") {
		w.files = append(w.files, ifile{full, []istmt{{nil, "second"}}}, ifile{cleanJoin(dirs[k], "second"), nil})
	}
	w.follow(mains[k])
}

// P07_Scaled: a number of files included by name, by one pattern or in a chain, next to any constant of the code.
func P07_Scaled() {
	nd.MaxSteps(800_000_000)
	n := nd.CodeInt(1, tiered(140, 600))
	w := &world{dir: "/etc/nginx"}
	name := func(i int) string { return "f" + itoa(1000+i) }
	m := ifile{path: mainConf}
	var all []string
	kind := nd.Pick(3)
	for i := 0; i < n; i++ {
		f := ifile{path: "/etc/nginx/" + name(i)}
		all = append([]string{f.path}, all...)
		switch kind {
		case 0:
			m.inc = append(m.inc, istmt{nil, name(i)})
		case 2:
			if i+1 < n {
				f.inc = []istmt{{nil, name(i + 1)}}
			}
		}
		w.files = append(w.files, f)
	}
	switch kind {
	case 1:
		m.inc = []istmt{{[]string{"http"}, "f*"}}
	case 2:
		m.inc = []istmt{{nil, name(0)}}
	}
	w.files = append([]ifile{m}, w.files...)
	w.matches = func(string) []string { return all }
	w.follow(mainConf)
}

// cycles parses n files where file i includes file j as often as edge says, and compares with whether there is a cycle.
func cycles(n int, edge func(i, j int) int, how func(i, j int) string) {
	v := &vfs{}
	adj := make([][]bool, n)
	for i := 0; i < n; i++ {
		adj[i] = make([]bool, n)
		text := ""
		for j := 0; j < n; j++ {
			for k := edge(i, j); k > 0; k-- {
				adj[i][j] = true
				text += how(i, j) + "\n"
			}
		}
		name := "/etc/nginx/f" + itoa(i)
		if i == 0 {
			name = mainConf
		}
		v.add(name, text)
		nd.Show("file "+itoa(i), text)
	}
	// what each file reaches in one or more steps
	reach := make([][]bool, n)
	for i := range adj {
		reach[i] = append([]bool{}, adj[i]...)
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if reach[i][k] && reach[k][j] {
					reach[i][j] = true
				}
			}
		}
	}
	cyclic := false
	for i := 0; i < n; i++ {
		if (i == 0 || reach[0][i]) && reach[i][i] {
			cyclic = true
		}
	}
	o := &cp.ParseOptions{Open: v.open, Glob: func(p string) ([]string, error) {
		// /etc/nginx/f[j]
		return []string{"/etc/nginx/f" + p[len("/etc/nginx/f["):len(p)-1]}, nil
	}}
	b := nd.Pick(3)
	o.StopParsingOnError, o.CombineConfigs = b == 1, b == 2
	p, err := cp.Parse(mainConf, o)
	if cyclic {
		nd.Assert(err != nil, "cycle not reported")
		nd.Assert(strings.Contains(err.Error(), "cycle"), "another error")
		nd.Cover("cycle")
		return
	}
	nd.Assert(err == nil, "error although there is no cycle")
	nd.Assert(len(p.Errors) == 0, "errors recorded")
	nd.Cover("no cycle")
}

func byName(i, j int) string {
	if j == 0 {
		return "include nginx.conf;"
	}
	return "include f" + itoa(j) + ";"
}

// P08_Three: 3 files each of which includes each of them 0 to 2 times: all graphs, in 3 modes of parsing.
func P08_Three() { cycles(3, func(i, j int) int { return nd.Pick(tiered(2, 3)) }, byName) }

// P08_Four: 4 files: all graphs without edges to the main file from it (quick: each other file includes at most the two
// others and the main file).
func P08_Four() {
	cycles(4, func(i, j int) int {
		if i == 0 && (j == 0 || nd.Tier() == 0 && j == 3) || nd.Tier() == 0 && (i == j || i == 3 && j == 2) {
			return 0
		}
		return nd.Pick(2)
	}, byName)
}

// P08_Mixed: 3 files; includes by name, by pattern, within blocks or by an absolute name; two edges to each file, with
// the main file included back by each.
func P08_Mixed() {
	kind := nd.Pick(5)
	cycles(3, func(i, j int) int { return nd.Pick(2) }, func(i, j int) string {
		n := "f" + itoa(j)
		if j == 0 {
			n = "nginx.conf"
			if kind == 1 {
				kind = 2
			}
		}
		switch kind {
		case 1:
			return "include f[" + itoa(j) + "];"
		case 2:
			return "x { include " + n + "; }"
		case 3:
			return "include /etc/nginx/" + n + ";"
		case 4:
			return "a { b { include ./" + n + "; } }"
		}
		return byName(i, j)
	})
}

// P08_Scaled: a chain of a number of files next to any constant of the code, closed to a cycle at the end or not.
func P08_Scaled() {
	nd.MaxSteps(800_000_000)
	n := nd.CodeInt(2, tiered(70, 140))
	back := nd.Pick(4)
	cycles(n, func(i, j int) int {
		switch {
		case j == i+1:
			return 1
		case i == n-1 && (back == 1 && j == 0 || back == 2 && j == n/2 || back == 3 && j == n-1):
			return 1
		case back == 0 && i == 0 && j == n-1:
			return 2
		}
		return 0
	}, byName)
}

// combineRef is the reference for Combined.
func combineRef(p *cp.Payload, ds cp.Directives, active []int, ok *bool) (out []*cp.Directive) {
	for _, d := range ds {
		e := *d
		if d.Block != nil {
			e.Block = append(cp.Directives{}, combineRef(p, d.Block, active, ok)...)
		}
		if d.Directive != "include" || d.Includes == nil {
			out = append(out, &e)
			continue
		}
		for _, i := range d.Includes {
			bad := i < 0 || i >= len(p.Config)
			for _, a := range active {
				bad = bad || a == i
			}
			if bad {
				*ok = false
				return
			}
			out = append(out, combineRef(p, p.Config[i].Parsed, append(append([]int{}, active...), i), ok)...)
		}
	}
	return
}

// combined compares Combined with the reference.
func combined(p *cp.Payload) {
	nd.Show("payload", showPayload(p))
	before := dump(p)
	ok := true
	want := combineRef(p, p.Config[0].Parsed, []int{0}, &ok)
	c, err := p.Combined()
	nd.Assert(dump(p) == before, "the payload was modified")
	if !ok {
		nd.Assert(err != nil && c == nil, "bad include not reported")
		nd.Assert(err.Error() != "", "error without message")
		nd.Cover("bad")
		return
	}
	if err != nil {
		nd.Fail("error: " + err.Error())
	}
	nd.Assert(len(c.Config) == 1, "not one file")
	got := tree(c.Config[0].Parsed, true, true)
	nd.Show("combined", got)
	nd.Show("expected", tree(want, true, true))
	nd.Assert(got == tree(want, true, true), "content differs")
	k, st := 0, "ok"
	for _, f := range p.Config {
		if f.Status == "failed" {
			st = "failed"
		}
		for _, e := range f.Errors {
			nd.Assert(k < len(c.Config[0].Errors), "errors lost")
			g := c.Config[0].Errors[k]
			nd.Assert(g.Error == e.Error && g.Line == e.Line, "another error")
			k++
		}
	}
	nd.Assert(k == len(c.Config[0].Errors), "errors invented")
	nd.Assert(c.Config[0].File == p.Config[0].File, "another name")
	nd.Assert(c.Config[0].Status == st, "status of the file")
	nd.Assert(c.Status == p.Status, "status of the payload")
	nd.Assert(len(c.Errors) == len(p.Errors), "errors of the payload")
	for i := range c.Errors {
		nd.Assert(c.Errors[i].Error == p.Errors[i].Error && c.Errors[i].File == p.Errors[i].File && c.Errors[i].Line == p.Errors[i].Line, "errors of the payload")
	}
	// the result can be changed without changing the original
	scribble(c.Config[0].Parsed)
	nd.Assert(dump(p) == before, "the combined payload shares directives with the original")
	nd.Cover("combined")
}

// scribble changes every directive.
func scribble(ds cp.Directives) {
	for _, d := range ds {
		scribble(d.Block)
		d.Directive, d.Line = "changed", -1
		d.Block, d.Includes = nil, nil
	}
}

// dump renders all of a payload.
func dump(p *cp.Payload) string {
	s := p.Status + ";" + itoa(len(p.Errors))
	for _, e := range p.Errors {
		s += "!" + e.File + errShow(e.Error)
	}
	for _, c := range p.Config {
		s += "[" + c.File + " " + c.Status
		for _, e := range c.Errors {
			s += "!" + errShow(e.Error)
		}
		s += tree(c.Parsed, true, true) + "]"
	}
	return s
}

type errText string

func (e errText) Error() string { return string(e) }

func comment(s string) *string { return &s }

// incDir is one of many directives, most of which include.
func incDir(line, files int) *cp.Directive {
	d := &cp.Directive{Directive: "include", Line: line, Args: []string{"x"}}
	switch nd.Pick(8) {
	case 0:
		d.Directive = "plain"
	case 1:
		d.Includes = []int{nd.Pick(files)}
	case 2:
		d.Includes = []int{nd.Pick(files+2) - 1, files - 1}
	case 3:
		d.Includes = []int{}
	case 4: // matched nothing
	case 5:
		d.Directive, d.Includes = "other", []int{1}
	case 6:
		d.Directive, d.Args, d.Comment = "#", []string{}, comment("include")
	case 7:
		d.Directive = "http"
		d.Block = cp.Directives{{Directive: "include", Args: []string{"y"}, Line: line, Includes: []int{files - 1}}, {Directive: "in", Line: line, Args: []string{}}}
	}
	return d
}

// P09_Payload: 3 files of 2, 1 and 1 directives of 8 kinds (thorough: 2, 2 and 1) with arbitrary include indices from -1 to 3, with errors in some.
func P09_Payload() {
	n := 3
	line := 7
	p := &cp.Payload{Status: "ok"}
	for i := 0; i < n; i++ {
		c := cp.Config{File: "f" + itoa(i), Status: "ok"}
		k := 1
		if i == 0 || i == 1 && nd.Tier() > 0 {
			k = 2
		}
		for ; k > 0; k-- {
			c.Parsed = append(c.Parsed, incDir(10*i+k, n))
		}
		p.Config = append(p.Config, c)
	}
	if nd.Pick(2) == 1 {
		for _, i := range []int{0, 2} {
			e := errText("e" + itoa(i))
			p.Config[i].Status = "failed"
			p.Config[i].Errors = []cp.ConfigError{{Line: &line, Error: e}}
			p.Errors = append(p.Errors, cp.PayloadError{File: p.Config[i].File, Line: &line, Error: e})
			p.Status = "failed"
		}
	}
	combined(p)
}

// P09_Nested: includes at any depth of up to 3 blocks, in a chain of 4 files, two of them included more than once.
func P09_Nested() {
	mk := func(depth int, inc []int) cp.Directives {
		ds := cp.Directives{{Directive: "a", Args: []string{}}, {Directive: "include", Args: []string{"x"}, Includes: inc}, {Directive: "z", Args: []string{}}}
		for i := 0; i < depth; i++ {
			ds = cp.Directives{{Directive: "b" + itoa(i), Args: []string{"1"}, Block: ds}, {Directive: "after", Args: []string{}}}
		}
		return ds
	}
	lists := [][]int{{1}, {1, 2}, {2, 1}, {3, 3}, {}, {1, 2, 3}, {0}, nil}
	p := &cp.Payload{Status: "ok"}
	for i := 0; i < 4; i++ {
		var inc []int
		switch i {
		case 0:
			inc = lists[nd.Pick(len(lists))]
		case 1:
			inc = [][]int{{2}, {3, 2}, {}, {1}, nil}[nd.Pick(5)]
		case 2:
			inc = [][]int{{3}, {3, 3}, {1}, {4}, nil}[nd.Pick(5)]
		}
		p.Config = append(p.Config, cp.Config{File: "f" + itoa(i), Status: "ok", Parsed: mk(nd.Pick(3), inc)})
	}
	combined(p)
}

// P09_Empty: blocks with up to 2 statements, nested up to 2 deep, and up to 2 included files that have nothing, a statement, a block with nothing or
// an include: blocks of which nothing is left stay blocks.
func P09_Empty() {
	kinds := func() *cp.Directive {
		switch nd.Pick(5) {
		case 0:
			return &cp.Directive{Directive: "include", Args: []string{"x"}, Includes: []int{1 + nd.Pick(2)}}
		case 1:
			return &cp.Directive{Directive: "a", Args: []string{}}
		case 2:
			return &cp.Directive{Directive: "include", Args: []string{"x"}, Includes: []int{}}
		case 3:
			return &cp.Directive{Directive: "include", Args: []string{"x"}, Includes: []int{2, 1}}
		}
		return &cp.Directive{Directive: "b", Args: []string{}, Block: cp.Directives{}}
	}
	ds := cp.Directives{}
	for n := nd.Pick(3); n > 0; n-- {
		ds = append(ds, kinds())
	}
	for n := nd.Pick(3); n > 0; n-- {
		ds = cp.Directives{{Directive: "o", Args: []string{"1"}, Block: ds}}
	}
	p := &cp.Payload{Status: "ok", Config: []cp.Config{{File: "m", Status: "ok", Parsed: ds}}}
	for i := 1; i < 3; i++ {
		c := cp.Config{File: "f" + itoa(i), Status: "ok", Parsed: cp.Directives{}}
		switch nd.Pick(5) {
		case 1:
			c.Parsed = append(c.Parsed, &cp.Directive{Directive: "s" + itoa(i), Args: []string{}})
		case 2:
			c.Parsed = append(c.Parsed, &cp.Directive{Directive: "t" + itoa(i), Args: []string{}, Block: cp.Directives{}})
		case 3:
			c.Parsed = append(c.Parsed, &cp.Directive{Directive: "include", Args: []string{"x"}, Includes: []int{3 - i}})
		case 4:
			c.Parsed = nil
		}
		p.Config = append(p.Config, c)
	}
	combined(p)
}

// noFiles forgets the file names of directives.
func noFiles(ds cp.Directives) string { return tree(ds, true, false) }

// P09_Parse: the main file with 3 (thorough: 4) of 16 statements, the included ones with 1: combining while parsing against
// combining afterwards.
func P09_Parse() {
	list := []string{"a b;", "include a;", "include b*;", "http {", "}", "nope {include a;}", "include gone;", "include c*;", "map $a $b {include a;}\n", "#c\n", "x {;}", "daemon x;", "include b1 {y;}", "ig {include a;}", "{", "if (a) {include b1;}"}
	s := anyStmts(tiered(2, 3), list) + "include a;"
	a := anyStmts(1, list) + "last;"
	nd.Show("text", s+"|"+a)
	mk := func(c bool) *cp.ParseOptions {
		o := stmtOptions(s, a)
		o.Glob = func(p string) ([]string, error) {
			switch p {
			case "/etc/nginx/b*":
				return []string{"/etc/nginx/b1"}, nil
			case "/etc/nginx/c*":
				return []string{"/etc/nginx/b1", "/etc/nginx/a"}, nil
			}
			return nil, nil
		}
		o.ErrorOnUnknownDirectives = false
		o.CombineConfigs = c
		return o
	}
	p, err := cp.Parse(mainConf, mk(false))
	q, err2 := cp.Parse(mainConf, mk(true))
	if err != nil {
		nd.Assert(err2 != nil && errShow(err) == errShow(err2), "errors differ")
		nd.Cover("error")
		return
	}
	nd.Assert(err2 == nil, "errors differ")
	c, err := p.Combined()
	nd.Assert(err == nil, "cannot be combined")
	nd.Assert(c.Status == q.Status && payloadErrs(c.Errors) == payloadErrs(q.Errors), "errors differ")
	nd.Assert(len(q.Config) == 1 && len(c.Config) == 1, "not one file")
	nd.Assert(q.Config[0].File == c.Config[0].File && q.Config[0].Status == c.Config[0].Status, "files differ")
	nd.Assert(len(q.Config[0].Errors) == len(c.Config[0].Errors), "errors differ")
	x, y := noFiles(c.Config[0].Parsed), noFiles(q.Config[0].Parsed)
	nd.Show("afterwards", x)
	nd.Show("while", y)
	nd.Assert(x == y, "trees differ")
	// directives carry the file they come from
	i := 0
	marked(q.Config[0].Parsed, &i)
	nd.Cover("same")
}

// marked checks the file names of a combined tree.
func marked(ds cp.Directives, n *int) {
	for _, d := range ds {
		*n++
		nd.Assert(contains([]string{mainConf, "/etc/nginx/a", "/etc/nginx/b1"}, d.File), "directive without file")
		if d.Directive == "last" {
			nd.Assert(d.File == "/etc/nginx/a", "directive of another file")
		}
		if d.Directive == "user" {
			nd.Assert(d.File == "/etc/nginx/b1", "directive of another file")
		}
		marked(d.Block, n)
	}
}

// P09_Scaled: a number of files, includes or levels next to any constant of the code.
func P09_Scaled() {
	nd.MaxSteps(800_000_000)
	n := nd.CodeInt(1, tiered(140, 600))
	p := &cp.Payload{Status: "ok"}
	add := func(ds cp.Directives) {
		p.Config = append(p.Config, cp.Config{File: "f", Status: "ok", Parsed: ds})
	}
	inc := func(is ...int) *cp.Directive {
		return &cp.Directive{Directive: "include", Args: []string{"x"}, Includes: is}
	}
	leaf := &cp.Directive{Directive: "leaf", Args: []string{}}
	switch nd.Pick(4) {
	case 0: // chain
		for i := 0; i < n; i++ {
			add(cp.Directives{inc(i + 1), leaf})
		}
		add(cp.Directives{leaf})
	case 1: // many in one statement
		var is []int
		for i := 1; i <= n; i++ {
			is = append(is, i)
		}
		add(cp.Directives{inc(is...)})
		for i := 0; i < n; i++ {
			add(cp.Directives{leaf})
		}
	case 2: // many statements of one file
		var ds cp.Directives
		for i := 0; i < n; i++ {
			ds = append(ds, inc(1), leaf)
		}
		add(ds)
		add(cp.Directives{leaf, leaf})
	case 3: // deep
		ds := cp.Directives{inc(1)}
		for i := 0; i < n; i++ {
			ds = cp.Directives{{Directive: "b", Args: []string{}, Block: ds}}
		}
		add(ds)
		add(cp.Directives{leaf})
	}
	combined(p)
}
