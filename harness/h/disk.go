package h

import (
	"errors"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["P07_Disk"] = P07_Disk
	All["B04_Disk"] = B04_Disk
}

// wild matches a name with a pattern of literal characters, '*', '?' and sets such as "[ab]".
func wild(p, s string) bool {
	switch {
	case p == "":
		return s == ""
	case p[0] == '*':
		return wild(p[1:], s) || s != "" && s[0] != '/' && wild(p, s[1:])
	case s == "":
		return false
	case p[0] == '?':
		return s[0] != '/' && wild(p[1:], s[1:])
	case p[0] == '[':
		e := strings.IndexByte(p, ']')
		return strings.IndexByte(p[1:e], s[0]) >= 0 && wild(p[e+1:], s[1:])
	}
	return p[0] == s[0] && wild(p[1:], s[1:])
}

func write(path, text string) {
	nd.Assert(os.MkdirAll(filepath.Dir(path), 0o755) == nil, "cannot make the directory")
	nd.Assert(os.WriteFile(path, []byte(text), 0o644) == nil, "cannot write "+path)
}

// P07_Disk: files on disk, opened and found by the default functions: the main file named absolutely or relatively, with one of 13 includes
// (names, missing names, a directory, patterns over files and directories) written absolutely or relatively; any of 5 files exist.
func P07_Disk() {
	s := nd.Scratch()
	all := []string{"i/b.conf", "i/a.conf", "i/c", "j/a.conf", "i/d/e"}
	var have []string
	nd.Assert(os.MkdirAll(s+"/i/d", 0o755) == nil, "cannot make the directory")
	for k, f := range all {
		if nd.Pick(2) == 1 {
			write(s+"/"+f, "pid f"+itoa(k)+";")
			have = append(have, f)
		}
	}
	pat := []string{"i/c", "i/a.conf", "i/../j/a.conf", "./i/./c", "i/*.conf", "?/a.conf", "[ij]/[ab].conf", "*/*.conf", "i/*", "i/d/*", "i/d", "x/*", "i/c/*"}[nd.Pick(13)]
	var want []string
	if strings.ContainsAny(pat, "*?[") {
		for _, f := range append([]string{"i/d"}, have...) {
			if wild(pat, f) {
				want = append(want, f)
			}
		}
		sort.Strings(want)
	} else {
		c := filepath.Clean(pat)
		if c == "i/d" || contains(have, c) {
			want = []string{c}
		}
	}
	abs := nd.Pick(2) == 1
	if abs {
		pat = s + "/" + pat
	}
	main := []string{"main.conf", "./main.conf", s + "/main.conf"}[nd.Pick(3)]
	write(s+"/main.conf", "pid m;\ninclude "+pat+";")
	o := &cp.ParseOptions{}
	p, err := cp.Parse(main, o)
	nd.Assert(err == nil && o.Open == nil && o.Glob == nil, "cannot parse, or the options were changed")
	got := p.Config[0]
	missing := len(want) == 0 && !strings.ContainsAny(pat, "*?[")
	nd.Assert(len(p.Config) == 1+len(want) && got.File == main, "not the included files")
	if missing {
		nd.Assert(len(p.Errors) > 0 && *p.Errors[0].Line == 2 && p.Errors[0].File == main, "no error for the missing file")
	}
	nd.Assert(len(got.Parsed) == 2 && len(got.Parsed[1].Includes) == len(want), "not the included files")
	errs := 0
	if missing {
		errs = 1
	}
	for i, w := range want {
		c := p.Config[1+i]
		clean := filepath.Clean(c.File)
		if filepath.IsAbs(clean) {
			r, err := filepath.Rel(s, clean)
			nd.Assert(err == nil, "not an included file")
			clean = r
		}
		nd.Assert(got.Parsed[1].Includes[i] == 1+i && clean == w, "not the included files, or not in order")
		nd.Assert(filepath.IsAbs(c.File) == (abs || filepath.IsAbs(main)), "the name of an included file is not resolved against that of the main file")
		if w == "i/d" {
			errs++
			nd.Assert(c.Status == "failed" && len(c.Errors) == 1 && errors.Is(c.Errors[0].Error, syscall.EISDIR), "a directory was read")
			continue
		}
		k := 0
		for all[k] != w {
			k++
		}
		nd.Assert(c.Status == "ok" && tree(c.Parsed, true, false) == "<3'pid'@1 2'f"+itoa(k)+"'>", "not the contents of the included file")
	}
	nd.Assert(len(p.Errors) == errs && (p.Status == "ok") == (errs == 0), "wrong errors")
	if len(want) > 1 {
		nd.Cover("several")
	}
	if missing {
		nd.Cover("missing")
	}
	nd.Cover("end")
}

// B04_Disk: a configuration of 1-2 files on disk with 3 (thorough: 4) arbitrary characters in one of them is parsed with the default functions, built to
// another directory (new, existing, holding longer files; named absolutely, relatively or by nothing, which is the working directory) or in place, and parsed from
// there: the same trees.
func B04_Disk() {
	s := nd.Scratch()
	body := nd.StrIn(tiered(3, 4), "a\\'\"# \n{};")
	nd.Show("text", body)
	two := nd.Pick(2) == 1
	write(s+"/main.conf", "pid \"x y\";\nevents {\n}\n"+body)
	if two {
		write(s+"/main.conf", "pid \"x y\";\ninclude sub/*;\nhttp {}")
		write(s+"/sub/b.conf", "events {\n}\n"+body)
	}
	po := &cp.ParseOptions{ParseComments: true, DirectiveSources: []cp.MatchFunc{nothingKnown}}
	p, err := cp.Parse("main.conf", po)
	nd.Assert(err == nil, "cannot parse")
	if p.Status != "ok" {
		nd.Cover("not accepted")
		return
	}
	k := nd.Pick(5)
	dir := []string{"out", s + "/out/er", "", ".", "out"}[k]
	if k == 4 {
		write(s+"/out/main.conf", strings.Repeat("old ", 50))
		write(s+"/out/sub/b.conf", strings.Repeat("old ", 50))
		write(s+"/out/other", "old")
	}
	nd.Assert(cp.BuildFiles(*p, dir, &cp.BuildOptions{}) == nil, "cannot build")
	q, err := cp.Parse(filepath.Join(dir, "main.conf"), po)
	nd.Assert(err == nil && q.Status == "ok" && len(q.Config) == len(p.Config), "the built configuration is not accepted")
	for i := range p.Config {
		want := filepath.Join(dir, p.Config[i].File)
		nd.Assert(filepath.Clean(q.Config[i].File) == want, "the built files are others")
		nd.Assert(tree(q.Config[i].Parsed, false, false) == tree(p.Config[i].Parsed, false, false), "the built configuration is another")
	}
	if k == 4 {
		b, err := os.ReadFile(s + "/out/other")
		nd.Assert(err == nil && string(b) == "old", "another file was touched")
	}
	nd.Cover("end")
}
