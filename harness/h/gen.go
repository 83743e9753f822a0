package h

import (
	"encoding/json"
	"errors"
	"flag"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/gencmd"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["G01_Masks"] = G01_Masks
	All["G01_Values"] = G01_Values
	All["G01_Layout"] = G01_Layout
	All["G01_Comment"] = G01_Comment
	All["G01_Literal"] = G01_Literal
	All["G01_Entries"] = G01_Entries
	All["G01_Names"] = G01_Names
	All["G01_Places"] = G01_Places
	All["G01_Files"] = G01_Files
	All["G01_Output"] = G01_Output
	All["G01_Scaled"] = G01_Scaled
	All["G02_Config"] = G02_Config
	All["G02_JSON"] = G02_JSON
	All["G02_Unknown"] = G02_Unknown
	All["G02_Errors"] = G02_Errors
	All["G02_Flags"] = G02_Flags
	All["G02_Override"] = G02_Override
	All["G02_Near"] = G02_Near
}

// genMasks are the masks of NGINX: the name in its sources, the name here, and the value for those that tell arguments.
var genMasks = []struct {
	c, g string
	v    uint64
}{{"NGX_CONF_NOARGS", "ngxConfNoArgs", 1}, {"NGX_CONF_TAKE1", "ngxConfTake1", 2}, {"NGX_CONF_TAKE2", "ngxConfTake2", 4}, {"NGX_CONF_TAKE3", "ngxConfTake3", 8},
	{"NGX_CONF_TAKE4", "ngxConfTake4", 16}, {"NGX_CONF_TAKE5", "ngxConfTake5", 32}, {"NGX_CONF_TAKE6", "ngxConfTake6", 64}, {"NGX_CONF_TAKE7", "ngxConfTake7", 128},
	{"NGX_CONF_TAKE12", "ngxConfTake12", 6}, {"NGX_CONF_TAKE13", "ngxConfTake13", 10}, {"NGX_CONF_TAKE23", "ngxConfTake23", 12}, {"NGX_CONF_TAKE123", "ngxConfTake123", 14},
	{"NGX_CONF_TAKE1234", "ngxConfTake1234", 30}, {"NGX_CONF_BLOCK", "ngxConfBlock", 0}, {"NGX_CONF_FLAG", "ngxConfFlag", 0}, {"NGX_CONF_ANY", "ngxConfAny", 0},
	{"NGX_CONF_1MORE", "ngxConf1More", 0}, {"NGX_CONF_2MORE", "ngxConf2More", 0}, {"NGX_DIRECT_CONF", "ngxDirectConf", 0}, {"NGX_MAIN_CONF", "ngxMainConf", 0},
	{"NGX_EVENT_CONF", "ngxEventConf", 0}, {"NGX_MAIL_MAIN_CONF", "ngxMailMainConf", 0}, {"NGX_MAIL_SRV_CONF", "ngxMailSrvConf", 0},
	{"NGX_STREAM_MAIN_CONF", "ngxStreamMainConf", 0}, {"NGX_STREAM_SRV_CONF", "ngxStreamSrvConf", 0}, {"NGX_STREAM_UPS_CONF", "ngxStreamUpsConf", 0},
	{"NGX_HTTP_MAIN_CONF", "ngxHTTPMainConf", 0}, {"NGX_HTTP_SRV_CONF", "ngxHTTPSrvConf", 0}, {"NGX_HTTP_LOC_CONF", "ngxHTTPLocConf", 0}, {"NGX_HTTP_UPS_CONF", "ngxHTTPUpsConf", 0},
	{"NGX_HTTP_SIF_CONF", "ngxHTTPSifConf", 0}, {"NGX_HTTP_LIF_CONF", "ngxHTTPLifConf", 0}, {"NGX_HTTP_LMT_CONF", "ngxHTTPLmtConf", 0}, {"NGX_ANY_CONF", "ngxAnyConf", 0}}

func goMask(c string) string {
	for _, m := range genMasks {
		if m.c == c {
			return m.g
		}
	}
	return ""
}

// gdef is a directive definition: its name and masks in the words of NGINX.
type gdef struct {
	name  string
	masks []string
}

// gtab is a table as generated.
type gtab map[string][]string

func (t gtab) add(ds ...gdef) {
	for _, d := range ds {
		s := ""
		for i, m := range d.masks {
			if i > 0 {
				s += " | "
			}
			s += goMask(m)
		}
		t[d.name] = append(t[d.name], s)
	}
}

func (t gtab) show() string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += q(k) + "{" + strings.Join(t[k], ", ") + "} "
	}
	return s
}

// carray is the C source of an array of directives. gap gives what is between two words, of which it is told the number, and
// whether they would become one without it.
func carray(name string, ds []gdef, gap func(i int, need bool, def string) string) string {
	n := -1
	g := func(need bool, def string) string { n++; return gap(n, need, def) }
	s := "static ngx_command_t" + g(true, "  ") + name + g(false, "") + "[" + g(false, "") + "]" + g(false, " ") + "=" + g(false, " ") + "{" + g(false, "\n\n    ")
	for _, d := range ds {
		s += "{" + g(false, " ") + "ngx_string" + g(false, "") + "(" + g(false, "") + "\"" + d.name + "\"" + g(false, "") + ")" + g(false, "") + "," + g(false, "\n      ")
		for i, m := range d.masks {
			if i > 0 {
				s += g(false, "") + "|" + g(false, "")
			}
			s += m
		}
		s += g(false, "") + "," + g(false, "\n      ") + "ngx_conf_set_flag_slot" + g(false, "") + "," + g(false, " ") + "NGX_HTTP_LOC_CONF_OFFSET" + g(false, "") + "," + g(false, "\n      ") +
			"offsetof(ngx_http_x_t, x)" + g(false, "") + "," + g(false, " ") + "NULL" + g(false, " ") + "}" + g(false, "") + "," + g(false, "\n    ")
	}
	return s + "ngx_null_command" + g(false, "\n") + "}" + g(false, "") + ";" + g(false, "\n")
}

func plainGap(i int, need bool, def string) string { return def }

var gdefs = []gdef{{"a", []string{"NGX_HTTP_MAIN_CONF", "NGX_HTTP_SRV_CONF", "NGX_CONF_TAKE1"}}, {"b_2", []string{"NGX_MAIN_CONF"}}, {"a", []string{"NGX_STREAM_MAIN_CONF", "NGX_CONF_FLAG"}}}

// gtokens splits Go text into words and delimiters; comments are given apart.
func gtokens(s string) (ts []string, comments []string) {
	word := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case strings.HasPrefix(s[i:], "//"):
			j := i
			for j < len(s) && s[j] != '\n' {
				j++
			}
			comments = append(comments, s[i+2:j])
			i = j
		case strings.HasPrefix(s[i:], "/*") && strings.Contains(s[i:], "*/"):
			i += strings.Index(s[i:], "*/") + 2
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return append(ts, "unterminated"), comments
			}
			ts = append(ts, s[i:j+1])
			i = j + 1
		case word(c):
			j := i
			for j < len(s) && word(s[j]) {
				j++
			}
			ts = append(ts, s[i:j])
			i = j
		default:
			ts = append(ts, s[i:i+1])
			i++
		}
	}
	return ts, comments
}

// table reads the table of a generated file for a map M and a function F.
func table(s string) gtab {
	ts, _ := gtokens(s)
	expect := func(w string) {
		for _, x := range strings.Fields(w) {
			nd.Assert(len(ts) > 0 && ts[0] == x, "the generated file is not as expected: no "+x)
			ts = ts[1:]
		}
	}
	t := gtab{}
	expect("package crossplane var M = map [ string ] [ ] uint {")
	for len(ts) > 0 && ts[0] != "}" {
		k := ts[0]
		nd.Assert(len(k) >= 2 && k[0] == '"', "the generated file is not as expected: no name")
		k = k[1 : len(k)-1]
		ts = ts[1:]
		expect(": {")
		_, twice := t[k]
		nd.Assert(!twice, "a directive twice")
		t[k] = []string{}
		for len(ts) > 0 && ts[0] != "}" {
			m := ""
			for len(ts) > 0 && ts[0] != "," {
				if m != "" {
					m += " "
				}
				m += ts[0]
				ts = ts[1:]
			}
			expect(",")
			t[k] = append(t[k], m)
		}
		expect("} ,")
	}
	expect("} func F ( directive string ) ( [ ] uint , bool ) { m , ok : = M [ directive ] return m , ok }")
	nd.Assert(len(ts) == 0, "the generated file is not as expected: something after its end")
	return t
}

// putFiles writes files below a scratch directory, of which it tells the name.
func putFiles(fs ...[2]string) string {
	dir := nd.Scratch() + "/src"
	nd.Assert(os.MkdirAll(dir, 0o755) == nil, "mkdir")
	for _, f := range fs {
		p := filepath.Join(dir, f[0])
		nd.Assert(os.MkdirAll(filepath.Dir(p), 0o755) == nil, "mkdir")
		nd.Assert(os.WriteFile(p, []byte(f[1]), 0o644) == nil, "write")
	}
	return dir
}

func generate(path string, c generator.GenerateConfig) (string, error) {
	c.DirectiveMapName, c.MatchFuncName = "M", "F"
	var b strings.Builder
	err := generator.Generate(path, &b, c)
	return b.String(), err
}

// wantTable compares what is generated for a text with a table.
func wantTable(text string, want gtab) {
	nd.Show("source", text)
	out, err := generate(putFiles([2]string{"x.c", text}), generator.GenerateConfig{})
	nd.Show("expected", want.show())
	nd.Assert(err == nil, "cannot generate")
	got := table(out)
	nd.Show("generated", got.show())
	nd.Assert(got.show() == want.show(), "table differs")
	nd.Cover("end")
}

// G01_Masks: a definition with any 2 of the 34 masks of NGINX, and with a third one in the middle.
func G01_Masks() {
	m := []string{genMasks[nd.Pick(len(genMasks))].c, genMasks[nd.Pick(len(genMasks))].c}
	if nd.Pick(2) == 1 {
		m = []string{m[0], "NGX_HTTP_LIF_CONF", m[1]}
	}
	ds := []gdef{{"b", m}}
	t := gtab{}
	t.add(ds...)
	wantTable(carray("x", ds, plainGap), t)
}

// G01_Values: each of the 34 masks of NGINX stands for a constant of the package that means the same: the same numbers of
// arguments, and distinct bits for the rest.
func G01_Values() {
	bits := uint64(0)
	for _, m := range genMasks {
		v, ok := cp.ZZConsts[m.g]
		nd.Show("mask", m.c)
		nd.Assert(ok, "the generated files use a constant that does not exist")
		if m.v != 0 {
			nd.Assert(v == m.v, "wrong value")
			continue
		}
		if m.c == "NGX_ANY_CONF" {
			continue
		}
		nd.Assert(v != 0 && v&(v-1) == 0 && v&bits == 0 && v > 128, "not a bit of its own")
		bits |= v
	}
	nd.Cover("end")
}

// gaps are what may be between two words of C.
var gaps = []string{"", " ", "\n", "\t \t", "\r\n", "/* c */", "/* } ; { ngx_string(\"no\"), NGX_BAD, \n*/", " // c, d | \"x\" };\n", "//\r\n", "/**/ /***/"}

// G01_Layout: any of 10 kinds of white space and comments at any place between two words of an array of 2 (thorough: any 2 places).
func G01_Layout() {
	at, at2 := nd.Pick(47), -1
	k, k2 := nd.Pick(len(gaps)), 0
	if nd.Tier() > 0 {
		at2, k2 = nd.Pick(47), nd.Pick(len(gaps))
	}
	ds := gdefs[:2]
	t := gtab{}
	t.add(ds...)
	wantTable(carray("ngx_x_commands", ds, func(i int, need bool, def string) string {
		g := def
		switch i {
		case at:
			g = gaps[k]
		case at2:
			g = gaps[k2]
		}
		if need && g == "" {
			g = " "
		}
		return g
	}), t)
}

// ccomment tells whether s can be inside a comment of C of either kind.
func ccomment(s string, line bool) bool {
	if line {
		return !strings.Contains(s, "\n") && !strings.HasSuffix(s, "\\") && !strings.HasSuffix(s, "\\\r")
	}
	return !strings.Contains(s+"*/", "*/") || strings.Index(s+"*/", "*/") == len(s)
}

// G01_Comment: comments of both kinds with 4 (thorough: 5) characters at 4 places.
func G01_Comment() {
	c := nd.StrIn(tiered(4, 5), "*/\"'\\\n}; ")
	line := nd.Pick(2) == 0
	nd.Assume(ccomment(c, line))
	if line {
		c = "//" + c + "\n"
	} else {
		c = "/*" + c + "*/"
	}
	at := []int{-1, 5, 18, 40}[nd.Pick(4)]
	t := gtab{}
	t.add(gdefs[:2]...)
	pre := ""
	if at < 0 {
		pre = "int x;" + c
	}
	wantTable(pre+carray("x", gdefs[:2], func(i int, need bool, def string) string {
		if i == at {
			return c
		}
		return def
	})+"int y; /* y */ char *z = \"*/\"; // \"", t)
}

// cliteral tells whether s can be inside a string or character literal of C.
func cliteral(s string, quote byte) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n', quote:
			return false
		case '\\':
			i++
			if i == len(s) {
				return false
			}
		}
	}
	return true
}

// G01_Literal: a string or character literal with 4 (thorough: 5) characters before and after an array and in its last definition.
func G01_Literal() {
	c := nd.StrIn(tiered(4, 5), "*/\"'\\a; ")
	quote := []string{"\"", "'"}[nd.Pick(2)]
	nd.Assume(cliteral(c, quote[0]))
	c = quote + c + quote
	ds := append([]gdef{}, gdefs[:2]...)
	t := gtab{}
	t.add(ds...)
	a := carray("x", ds, plainGap)
	switch nd.Pick(3) {
	case 0:
		a = "char *x = " + c + ";\n" + a
	case 1:
		a += "char *x = " + c + ", /* \" */ y = 0;\n" + strings.ReplaceAll(a, "\"a\"", "\"c\"")
		t.add(gdef{"c", ds[0].masks}, ds[1])
	case 2:
		a = strings.Replace(a, "NULL", c, 1)
	}
	wantTable(a, t)
}

// G01_Entries: what else is in a source file: preprocessor lines between definitions and arrays, other uses of ngx_string and
// ngx_command_t, several arrays, empty ones, definitions written in one line or over several.
func G01_Entries() {
	others := []string{"", "static ngx_str_t  ngx_x = ngx_string(\"no\");\n", "static char *ngx_x(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);\n", "extern ngx_command_t  ngx_y_commands[];\n",
		"#define X { ngx_string(\"no\"), NGX_BAD, 0 }\n", "ngx_module_t  ngx_x_module = {\n    NGX_MODULE_V1,\n    &ngx_x_ctx,\n    ngx_x_commands,\n    NGX_MODULE_V1_PADDING\n};\n",
		"ngx_command_t *c;\nc = x[];\n", "static ngx_command_t  ngx_e_commands[] = {\n\n      ngx_null_command\n};\n", "// static ngx_command_t x[] = { { ngx_string(\"no\"), NGX_MAIN_CONF, 0 } };\n"}
	s := others[nd.Pick(len(others))]
	t := gtab{}
	for i := 0; i < 2; i++ {
		ds := append([]gdef{}, gdefs[i:i+2]...)
		t.add(ds...)
		one, cond, last := false, false, false
		if i == 0 || nd.Tier() > 0 {
			one, cond, last = nd.Pick(2) == 1, nd.Pick(2) == 1, nd.Pick(2) == 1
		}
		a := carray("x", ds, func(i int, need bool, def string) string {
			if one && def != "" {
				return " "
			}
			return def
		})
		if cond && !one {
			a = strings.Replace(a, "},", "},\n#if (NGX_HTTP_SSL && X(1,2))\n", 1)
			a = strings.Replace(a, "ngx_null_command", "\n#endif\n ngx_null_command", 1)
		}
		if last {
			a = strings.Replace(a, ", ngx_null_command", " ", 1)
			a = strings.Replace(a, ",\n    ngx_null_command", "", 1)
		}
		s += a
		if i == 0 {
			s += others[nd.Pick(len(others))]
		}
	}
	wantTable(s, t)
}

// G01_Names: names of 3 characters of every class NGINX and C allow in a string without escapes.
func G01_Names() {
	n := nd.Str(3)
	for i := 0; i < len(n); i++ {
		nd.Assume(n[i] > ' ' && n[i] != '"' && n[i] != '\\' && n[i] != ';' && n[i] != '{' && n[i] != '}' && n[i] < 0x7f)
	}
	t := gtab{}
	ds := []gdef{{n, gdefs[0].masks}, gdefs[1]}
	t.add(ds...)
	nd.Assume(n != "b_2")
	wantTable(carray("x", ds, plainGap), t)
}

// G01_Places: two source files of which one has a directory or a name (before its extension) that is a string constant of the generator or one of 16 others.
func G01_Places() {
	var n string
	if nd.Pick(2) == 1 {
		n = nd.ToolStr()
		nd.Assume(len(n) < 60 && !strings.ContainsAny(n, "/\x00") && n != "." && n != "..")
	} else {
		n = []string{"test", "tests", "t", ".git", ".c", "vendor", "node_modules", "_x", "testdata", "os", "win32", "a b", "src", "a.c", "x.cpp", "\u00e9"}[nd.Pick(16)]
	}
	nd.Show("name", n)
	place := []string{"N/f.c", "N/d/f.cpp", "d/N/f.c", "N.c", "d/N.cpp"}[nd.Pick(5)]
	f := strings.ReplaceAll(place, "N", n)
	a := [2]string{"m/g.c", carray("x", []gdef{{"one", []string{genMasks[0].c}}}, plainGap)}
	b := [2]string{f, carray("y", []gdef{{"two", []string{genMasks[1].c}}}, plainGap)}
	t := gtab{}
	t.add(gdef{"one", []string{genMasks[0].c}}, gdef{"two", []string{genMasks[1].c}})
	out, err := generate(putFiles(a, b), generator.GenerateConfig{})
	nd.Assert(err == nil, "cannot generate")
	nd.Assert(table(out).show() == t.show(), "table differs")
	nd.Cover("end")
}

// G01_Files: trees with up to 3 files among 10 names, some not of C, each defining the same and one other directive; and one
// file alone.
func G01_Files() {
	names := []string{"a.c", "b.cpp", "a.h", "d/a.c", "d/e/b.c", "d.c/z.cpp", "ac", "z.cc", "A.C", "d-.c", "c.c.in"}
	var fs [][2]string
	seen := map[string]bool{}
	for i := 0; i < 3 && nd.Pick(2) == 1; i++ {
		n := names[nd.Pick(len(names))]
		nd.Assume(!seen[n])
		seen[n] = true
		fs = append(fs, [2]string{n, ""})
	}
	for i := range fs {
		fs[i][1] = carray("x", []gdef{{"same", []string{genMasks[i].c}}, {"x" + itoa(i), []string{genMasks[3+i].c}}, {"same", []string{genMasks[6+i].c}}}, plainGap)
	}
	isC := func(n string) bool { return strings.HasSuffix(n, ".c") || strings.HasSuffix(n, ".cpp") }
	t := gtab{}
	add := func(i int) {
		if isC(fs[i][0]) {
			t.add(gdef{"same", []string{genMasks[i].c}}, gdef{"x" + itoa(i), []string{genMasks[3+i].c}}, gdef{"same", []string{genMasks[6+i].c}})
		}
	}
	dir := putFiles(fs...)
	if nd.Pick(2) == 1 && len(fs) > 0 {
		dir += "/" + fs[0][0]
		add(0)
	} else {
		var order []int
		for i := range fs {
			order = append(order, i)
		}
		sort.Slice(order, func(i, j int) bool {
			a, b := strings.Split(fs[order[i]][0], "/"), strings.Split(fs[order[j]][0], "/")
			for k := 0; k < len(a) && k < len(b); k++ {
				if a[k] != b[k] {
					return a[k] < b[k]
				}
			}
			return len(a) < len(b)
		})
		for _, i := range order {
			add(i)
		}
	}
	l := ""
	for _, f := range fs {
		l += f[0] + " "
	}
	nd.Show("files", l)
	nd.Show("expected", t.show())
	out, err := generate(dir, generator.GenerateConfig{})
	if len(t) == 0 {
		nd.Assert(err != nil && out == "", "no error without definitions")
		nd.Cover("none")
		return
	}
	nd.Assert(err == nil, "cannot generate")
	got := table(out).show()
	nd.Show("generated", got)
	nd.Assert(got == t.show(), "table differs")
	nd.Cover("some")
}

// G01_Output: names of 2 characters for the map and the function, and a comment of 3 characters, which stays a comment.
func G01_Output() {
	m, f := "m"+nd.StrIn(2, "aZ_9"), "F"+nd.StrIn(2, "aZ_9")
	c := nd.StrIn(nd.Pick(4), "a\n/\"{<& ")
	dir := putFiles([2]string{"x.c", carray("x", gdefs[:1], plainGap)})
	var b strings.Builder
	err := generator.Generate(dir, &b, generator.GenerateConfig{DirectiveMapName: m, MatchFuncName: f, MatchFuncComment: c})
	nd.Show("comment", c)
	nd.Show("generated", b.String())
	nd.Assert(err == nil, "cannot generate")
	ts, cs := gtokens(b.String())
	want := "package crossplane var " + m + " = map [ string ] [ ] uint { \"a\" : { ngxHTTPMainConf | ngxHTTPSrvConf | ngxConfTake1 , } , } func " + f +
		" ( directive string ) ( [ ] uint , bool ) { m , ok : = " + m + " [ directive ] return m , ok }"
	nd.Assert(strings.Join(ts, " ") == want, "the generated file is not as expected")
	if c != "" {
		ls := strings.Split(c, "\n")
		nd.Assert(len(cs) >= len(ls), "the comment is missing")
		for i, l := range ls {
			nd.Assert(strings.TrimSpace(cs[len(cs)-len(ls)+i]) == strings.TrimSpace(l), "the comment differs")
		}
	}
	nd.Cover("end")
}

// G01_Scaled: a number of files, arrays, definitions, masks, or of characters of a name or a comment next to any constant of the code.
func G01_Scaled() {
	nd.MaxSteps(400_000_000)
	n := nd.CodeInt(1, tiered(300, 1100))
	var ds []gdef
	t := gtab{}
	s := ""
	switch nd.Pick(6) {
	case 0:
		for i := 0; i < n; i++ {
			ds = append(ds, gdef{"x" + itoa(i), []string{genMasks[i%30].c}})
		}
		s = carray("x", ds, plainGap)
	case 1:
		for i := 0; i < n; i++ {
			ds = append(ds, gdef{"x", []string{genMasks[i%30].c}})
		}
		s = carray("x", ds, plainGap)
	case 2:
		ds = []gdef{{"x", nil}, {"y", []string{"NGX_MAIN_CONF"}}}
		for i := 0; i < n; i++ {
			ds[0].masks = append(ds[0].masks, genMasks[i%30].c)
		}
		s = carray("x", ds, plainGap)
	case 3:
		ds = []gdef{{strings.Repeat("x", n), []string{"NGX_MAIN_CONF"}}, gdefs[0]}
		s = carray("x", ds, plainGap)
	case 4:
		ds = gdefs[:2]
		s = "/*" + strings.Repeat("c", n) + "*/" + carray("x", ds, func(i int, need bool, def string) string {
			if i == 14 {
				return strings.Repeat("\n", n)
			}
			return def
		})
	case 5:
		for i := 0; i < n; i++ {
			d := gdef{"x", []string{genMasks[i%30].c}}
			s += carray("x", []gdef{d}, plainGap)
			ds = append(ds, d)
		}
	}
	t.add(ds...)
	out, err := generate(putFiles([2]string{"x.c", s}), generator.GenerateConfig{})
	nd.Assert(err == nil, "cannot generate")
	nd.Assert(table(out).show() == t.show(), "table differs")
	nd.Cover("end")
}

// gconf is any configuration with filters and overrides of 4 names, of which a source defines 3.
func gconf() (generator.GenerateConfig, gtab, string) {
	c := generator.GenerateConfig{}
	ds := []gdef{{"x", []string{"NGX_MAIN_CONF", "NGX_CONF_TAKE1"}}, {"y", []string{"NGX_EVENT_CONF"}}, {"x", []string{"NGX_HTTP_LOC_CONF"}}, {"z", []string{"NGX_CONF_ANY"}}}
	t := gtab{}
	t.add(ds...)
	src := carray("x", ds, plainGap)
	names := []string{"x", "y", "z", "other"}
	for _, n := range names {
		if nd.Pick(2) == 1 {
			if c.Filter == nil {
				c.Filter = generator.Filters{}
			}
			c.Filter[n] = struct{}{}
		}
	}
	for _, n := range names {
		var ms []generator.Mask
		want := []string{}
		switch nd.Pick(4) {
		case 0:
			continue
		case 1:
			ms, want = []generator.Mask{{"a"}}, []string{"a"}
		case 2:
			ms, want = []generator.Mask{{"a", "b"}, {"c"}}, []string{"a | b", "c"}
		case 3:
			ms, want = []generator.Mask{}, []string{}
		}
		if c.Override == nil {
			c.Override = map[string][]generator.Mask{}
		}
		c.Override[n] = ms
		if _, ok := t[n]; ok {
			t[n] = want
		}
	}
	for n := range c.Filter {
		delete(t, n)
	}
	return c, t, src
}

func showConf(c generator.GenerateConfig) string {
	s := "filter"
	for _, n := range []string{"x", "y", "z", "other"} {
		if _, ok := c.Filter[n]; ok {
			s += " " + n
		}
	}
	s += " override"
	for _, n := range []string{"x", "y", "z", "other"} {
		if ms, ok := c.Override[n]; ok {
			s += " " + n + ":"
			for _, m := range ms {
				s += strings.Join(m, "|") + ","
			}
		}
	}
	return s
}

// G02_Config: any filters and overrides of 4 names, of which a source defines 3, one twice; the configuration is not changed.
func G02_Config() {
	c, t, src := gconf()
	before := showConf(c)
	nd.Show("configuration", before)
	nd.Show("expected", t.show())
	out, err := generate(putFiles([2]string{"x.c", src}), c)
	nd.Assert(err == nil, "cannot generate")
	got := table(out).show()
	nd.Show("generated", got)
	nd.Assert(got == t.show(), "table differs")
	nd.Assert(showConf(c) == before, "the configuration was changed")
	nd.Cover("end")
}

func jsonConf(c generator.GenerateConfig) string {
	var fs, os []string
	for _, n := range []string{"x", "y", "z", "other"} {
		if _, ok := c.Filter[n]; ok {
			fs = append(fs, "\""+n+"\"")
		}
		if ms, ok := c.Override[n]; ok {
			var l []string
			for _, m := range ms {
				l = append(l, "[\""+strings.Join(m, "\",\"")+"\"]")
			}
			os = append(os, "\""+n+"\":["+strings.Join(l, ",")+"]")
		}
	}
	return "{\"directiveMapName\":\"M\",\"matchFuncName\":\"F\", \"filter\":[" + strings.Join(fs, ", ") + "],\"override\":{" + strings.Join(os, ",") + "}}"
}

// G02_JSON: the same configurations read from JSON.
func G02_JSON() {
	c, t, src := gconf()
	text := jsonConf(c)
	nd.Show("configuration", text)
	var d generator.GenerateConfig
	nd.Assert(json.Unmarshal([]byte(text), &d) == nil, "cannot read the configuration")
	nd.Assert(d.DirectiveMapName == "M" && d.MatchFuncName == "F" && d.MatchFuncComment == "", "the configuration is read wrongly")
	var b strings.Builder
	err := generator.Generate(putFiles([2]string{"x.c", src}), &b, d)
	nd.Assert(err == nil, "cannot generate")
	nd.Assert(table(b.String()).show() == t.show(), "table differs")
	nd.Cover("end")
}

// G02_Unknown: masks that are not among those of NGINX: a known one with any one character replaced, removed or doubled, and 8
// others, at any of 3 places: an error that names the mask, and nothing is written.
func G02_Unknown() {
	m := ""
	if nd.Pick(2) == 0 {
		k := genMasks[nd.Pick(len(genMasks))].c
		at := nd.Pick(tiered(6, 18))
		if nd.Tier() == 0 {
			at = len(k) - 1 - at
		}
		nd.Assume(at < len(k) && at >= 0)
		switch nd.Pick(3) {
		case 0:
			c := nd.Byte()
			nd.Assume(c > ' ' && c < 0x7f && c != ',' && c != '|' && c != '/' && c != '"' && c != '\'' && c != '}')
			m = k[:at] + string(rune(c)) + k[at+1:]
		case 1:
			m = k[:at] + k[at+1:]
		case 2:
			m = k[:at+1] + k[at:]
		}
	} else {
		m = []string{"", "NGX_CONF", "ngxMainConf", "NGX_CONF_TAKE8", "NGX_MAIN_CONF NGX_CONF_TAKE1", "(NGX_MAIN_CONF)", "NGX_MAIN_CONF+NGX_CONF_TAKE1", "0"}[nd.Pick(8)]
	}
	ms := [][]string{{m}, {"NGX_MAIN_CONF", m}, {m, "NGX_MAIN_CONF"}, {"NGX_MAIN_CONF", m, "NGX_CONF_TAKE1"}}[nd.Pick(4)]
	bad := goMask(m) == ""
	ds := []gdef{gdefs[1], {"u", ms}}
	nd.Show("mask", m)
	out, err := generate(putFiles([2]string{"a.c", carray("x", gdefs[:1], plainGap)}, [2]string{"b.c", carray("x", ds, plainGap)}), generator.GenerateConfig{})
	nd.Assert((err != nil) == bad, "an unknown mask is accepted or a known one is not")
	if bad {
		nd.Assert(out == "", "something is written in spite of an error")
		nd.Assert(strings.Contains(err.Error(), m) && strings.Contains(err.Error(), "u"), "the error does not name the mask")
		nd.Cover("unknown")
		return
	}
	nd.Cover("known")
}

// failing writes up to n characters.
type failing struct {
	n   int
	got string
}

var errFull = errors.New("full")

func (w *failing) Write(b []byte) (int, error) {
	if len(w.got)+len(b) > w.n {
		k := w.n - len(w.got)
		w.got += string(b[:k])
		return k, errFull
	}
	w.got += string(b)
	return len(b), nil
}

// G02_Errors: a missing path, an unreadable tree, and a writer that fails after any number of the characters.
func G02_Errors() {
	src := carray("x", gdefs[:2], plainGap)
	dir := putFiles([2]string{"x.c", src}, [2]string{"d/y.txt", src})
	if nd.Pick(2) == 0 {
		p := []string{"/none", "/d", "/x.c/y", "/d/y.txt"}[nd.Pick(4)]
		out, err := generate(dir+p, generator.GenerateConfig{})
		nd.Assert(err != nil && out == "", "no error")
		nd.Cover("path")
		return
	}
	full, err := generate(dir, generator.GenerateConfig{})
	nd.Assert(err == nil, "cannot generate")
	w := &failing{n: nd.Pick(len(full) + 1)}
	err = generator.Generate(dir, w, generator.GenerateConfig{DirectiveMapName: "M", MatchFuncName: "F"})
	if w.n < len(full) {
		nd.Assert(errors.Is(err, errFull), "a write error is lost")
		nd.Cover("full")
		return
	}
	nd.Assert(err == nil && w.got == full, "output differs")
	nd.Cover("all")
}

// command runs the program with arguments and gives its output and exit code.
func command(args ...string) (out string, code int) {
	f, err := os.Create(nd.Scratch() + "/out")
	nd.Assert(err == nil, "create")
	saveOut, saveArgs, saveFlags := os.Stdout, os.Args, flag.CommandLine
	os.Stdout, os.Args = f, append([]string{"generate"}, args...)
	flag.CommandLine = flag.NewFlagSet("generate", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	flag.CommandLine.Usage = func() {}
	defer func() {
		os.Stdout, os.Args, flag.CommandLine = saveOut, saveArgs, saveFlags
		f.Close()
		b, err := os.ReadFile(nd.Scratch() + "/out")
		nd.Assert(err == nil, "read")
		out = string(b)
		switch r := recover().(type) {
		case nil:
		case nd.Exited:
			code = r.Code
		case error:
			nd.Assert(strings.Contains(r.Error(), "flag") || strings.Contains(r.Error(), "invalid"), "the program panics")
			code = 2
		default:
			panic(r)
		}
	}()
	gencmd.Main()
	return
}

// G02_Flags: the program with filters, overrides and names given as flags, in a configuration file, in both (flags win) or not at all;
// of two overrides of one directive the last one counts.
func G02_Flags() {
	ds := []gdef{{"x", []string{"NGX_MAIN_CONF"}}, {"y", []string{"NGX_EVENT_CONF"}}, {"z", []string{"NGX_CONF_ANY"}}}
	dir := putFiles([2]string{"x.c", carray("x", ds, plainGap)})
	t := gtab{}
	t.add(ds...)
	var args, conf []string
	fm, fo, fn := nd.Pick(4), nd.Pick(4), nd.Pick(4)
	if fm&2 != 0 { // in the file
		conf = append(conf, `"filter":["x"]`)
	}
	if fm&1 != 0 { // as flags
		args = append(args, "-filter", "y", "-filter=none")
	}
	switch {
	case fo&1 != 0:
		t["z"] = []string{"p | q", "r"}
		t["x"] = []string{"s"}
	case fo&2 != 0:
		t["z"] = []string{"c"}
	}
	switch {
	case fm&1 != 0:
		delete(t, "y")
	case fm&2 != 0:
		delete(t, "x")
	}
	if fo&2 != 0 {
		conf = append(conf, `"override":{"z":[["c"]]}`)
	}
	if fo&1 != 0 {
		args = append(args, "-override=z:first,second", "-override", "z: p|q ,r", "-override=x:s")
	}
	ok := true
	switch fn {
	case 0:
		args = append(args, "-directive-map-name", "M", "-match-func-name=F", "-match-func-comment", "F is here")
	case 1:
		conf = append(conf, `"directiveMapName":"M","matchFuncName":"F"`)
	case 2:
		conf = append(conf, `"directiveMapName":"no","matchFuncName":"none"`)
		args = append(args, "-match-func-name", "F", "--directive-map-name=M")
	case 3:
		k := nd.Pick(2)
		args = append(args, []string{"-match-func-name", "-directive-map-name"}[k], "F")
		conf = append(conf, `"`+[]string{"matchFuncName", "directiveMapName"}[k]+`":"F"`)
		ok = false
	}
	if len(conf) > 0 {
		p := nd.Scratch() + "/conf.json"
		nd.Assert(os.WriteFile(p, []byte("{"+strings.Join(conf, ",")+"}"), 0o644) == nil, "write")
		args = append(args, "-config-path", p)
	}
	switch nd.Pick(3) {
	case 0:
		args = append(args, "-src-path", dir)
	case 1:
		args = append([]string{"-src-path=" + dir + "/x.c"}, args...)
	case 2:
		ok = false
	}
	nd.Show("arguments", strings.ReplaceAll(strings.Join(args, " "), nd.Scratch(), ""))
	nd.Show("file", strings.Join(conf, ","))
	out, code := command(args...)
	if !ok {
		nd.Assert(code != 0 && out == "", "incomplete arguments are accepted")
		nd.Cover("incomplete")
		return
	}
	nd.Assert(code == 0, "the program fails")
	nd.Show("expected", t.show())
	got := table(out).show()
	nd.Show("generated", got)
	nd.Assert(got == t.show(), "table differs")
	nd.Assert(strings.Contains(out, "// F is here\n") == (fn == 0), "comment")
	nd.Cover("end")
}

// near is n, or n with one character added, replaced or removed.
func near(n string) string {
	i := nd.Pick(len(n) + 1)
	switch nd.Pick(3) {
	case 0:
		nd.Assume(i < len(n))
		return n[:i] + nd.StrIn(1, "aAcCsS_2") + n[i+1:]
	case 1:
		return n[:i] + nd.StrIn(1, "aAcCsS_2") + n[i:]
	}
	nd.Assume(i < len(n))
	return n[:i] + n[i+1:]
}

// G02_Near: a filter or an override of one of two names that differ in one character, or not at all, given directly, in JSON or as a flag.
func G02_Near() {
	a := []string{"acs", "A_s2"}[nd.Pick(2)]
	b := near(a)
	ds := []gdef{{a, []string{"NGX_MAIN_CONF"}}, {b, []string{"NGX_EVENT_CONF"}}, {"q", []string{"NGX_CONF_ANY"}}}
	t := gtab{}
	t.add(ds...)
	dir := putFiles([2]string{"x.c", carray("x", ds, plainGap)})
	k := a
	if nd.Pick(2) == 1 {
		k = b
	}
	nd.Show("names", a+" "+b)
	nd.Show("meant", k)
	filter := nd.Pick(2) == 1
	if filter {
		delete(t, k)
	} else {
		t[k] = []string{"m | n", "o"}
	}
	out := ""
	var err error
	switch nd.Pick(3) {
	case 0:
		c := generator.GenerateConfig{}
		if filter {
			c.Filter = generator.Filters{k: {}}
		} else {
			c.Override = map[string][]generator.Mask{k: {{"m", "n"}, {"o"}}}
		}
		out, err = generate(dir, c)
	case 1:
		c := generator.GenerateConfig{}
		text := "{\"filter\":[\"" + k + "\"]}"
		if !filter {
			text = "{\"override\":{\"" + k + "\":[[\"m\",\"n\"],[\"o\"]]}}"
		}
		nd.Assert(json.Unmarshal([]byte(text), &c) == nil, "cannot read the configuration")
		out, err = generate(dir, c)
	case 2:
		arg := "-filter=" + k
		if !filter {
			arg = "-override=" + k + ":m|n,o"
		}
		code := 0
		out, code = command("-src-path", dir, "-directive-map-name", "M", "-match-func-name", "F", arg)
		nd.Assert(code == 0, "the program fails")
	}
	nd.Assert(err == nil, "cannot generate")
	nd.Show("expected", t.show())
	got := table(out).show()
	nd.Show("generated", got)
	nd.Assert(got == t.show(), "table differs")
	nd.Cover("end")
}

// G02_Override: an override flag with 4 (thorough: 5) characters after the name and before the last mask.
func G02_Override() {
	s := nd.StrIn(tiered(4, 5), ":a|, \t")
	arg := "x" + s + "z"
	name, def, found := strings.Cut(arg, ":")
	bad := !found || strings.TrimSpace(name) == "" || strings.TrimSpace(def) == ""
	var want []string
	if !bad {
		for _, m := range strings.Split(def, ",") {
			w := ""
			for _, p := range strings.Split(m, "|") {
				p = strings.TrimSpace(p)
				bad = bad || p == ""
				if w != "" {
					w += " | "
				}
				w += p
			}
			want = append(want, w)
		}
	}
	nd.Show("override", arg)
	ds := []gdef{{"x", []string{"NGX_MAIN_CONF"}}, {"y", []string{"NGX_EVENT_CONF"}}}
	t := gtab{}
	t.add(ds...)
	dir := putFiles([2]string{"x.c", carray("x", ds, plainGap)})
	out, code := command("-src-path", dir, "-directive-map-name", "M", "-match-func-name", "F", "-override", arg)
	if bad {
		nd.Assert(code != 0 && out == "", "a malformed override is accepted")
		nd.Cover("malformed")
		return
	}
	if strings.TrimSpace(name) == "x" {
		t["x"] = want
	}
	nd.Assert(code == 0, "the program fails")
	nd.Show("expected", t.show())
	got := gtab{}
	for k, ms := range table(out) {
		for _, m := range ms {
			got[k] = append(got[k], m)
		}
	}
	nd.Show("generated", got.show())
	norm := func(s string) string { return strings.Join(strings.Fields(s), "") }
	nd.Assert(norm(got.show()) == norm(t.show()), "table differs")
	nd.Cover("end")
}
