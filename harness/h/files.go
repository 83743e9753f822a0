package h

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["B04_Into"] = B04_Into
	All["B04_Strings"] = B04_Strings
	All["B04_Files"] = B04_Files
	All["B04_Names"] = B04_Names
	All["B04_Places"] = B04_Places
	All["B04_Faults"] = B04_Faults
	All["B04_Scaled"] = B04_Scaled
	All["B04_Errors"] = B04_Errors
}

var errInjected = errors.New("injected")

// out is an output of a creator.
type out struct {
	c      *creator
	text   string
	closed int
}

// creator records outputs and fails at one operation.
type creator struct {
	names []string
	outs  []*out
	ops   int
	fail  int // the operation that fails, counted from 0
	hit   bool
	bad   string
	err   error // the error, errInjected if nil
	wrote int   // how much a failing write writes: nothing, half, all
}

func (c *creator) op() error {
	c.ops++
	if c.ops-1 == c.fail {
		c.hit = true
		if c.err != nil {
			return c.err
		}
		return errInjected
	}
	return nil
}

func (c *creator) Create(p string) (io.WriteCloser, error) {
	c.names = append(c.names, p)
	if err := c.op(); err != nil {
		return nil, err
	}
	o := &out{c: c}
	c.outs = append(c.outs, o)
	return o, nil
}

func (c *creator) Reset() {}

func (o *out) Write(b []byte) (int, error) {
	if o.closed > 0 {
		o.c.bad = "write after close"
	}
	if err := o.c.op(); err != nil {
		return len(b) * o.c.wrote / 2, err
	}
	o.text += string(b)
	return len(b), nil
}

func (o *out) Close() error {
	o.closed++
	if o.closed > 1 {
		o.c.bad = "closed twice"
	}
	return o.c.op()
}

// someConfig is a configuration of one of several shapes, with an arbitrary character.
func someConfig(file string, shape int, c string) cp.Config {
	ds := cp.Directives{}
	switch shape {
	case 1:
		ds = append(ds, &cp.Directive{Directive: "a", Args: []string{"x" + c}, Line: 1})
	case 2:
		ds = append(ds, &cp.Directive{Directive: "b", Args: []string{}, Line: 1, Block: cp.Directives{{Directive: "c", Args: []string{c}, Line: 2}}})
	case 3:
		ds = append(ds, &cp.Directive{Directive: "#", Args: []string{}, Line: 1, Comment: comment(c + " ")})
	case 4:
		ds = nil
	}
	return cp.Config{File: file, Status: "ok", Errors: []cp.ConfigError{}, Parsed: ds}
}

// B04_Into: up to 2 (thorough: 3) files of 5 shapes with an arbitrary character each, with and without header, into a creator any of
// whose operations fails.
func B04_Into() {
	n := nd.Pick(tiered(3, 4))
	p := &cp.Payload{}
	for i := 0; i < n; i++ {
		p.Config = append(p.Config, someConfig([]string{"a", "/b/c", "a"}[i], nd.Pick(5), nd.StrIn(1, "a \"\n;")))
	}
	o := &cp.BuildOptions{Header: nd.Pick(2) == 1}
	c := &creator{fail: nd.Pick(tiered(14, 18)) - 1}
	err := cp.BuildInto(p, c, o)
	nd.Assert(c.bad == "", c.bad)
	nd.Assert((err != nil) == c.hit, "an error is not reported, or one is made up")
	nd.Assert(err == nil || errors.Is(err, errInjected), "another error")
	nd.Assert(len(c.names) <= n, "too many outputs")
	for i, f := range c.names {
		nd.Assert(f == p.Config[i].File, "output with another name")
	}
	nd.Assert(err != nil || len(c.outs) == n, "outputs missing")
	for i, f := range c.outs {
		if err == nil || i < len(c.outs)-1 {
			nd.Assert(f.closed == 1, "output not closed")
			var b bytes.Buffer
			nd.Assert(cp.Build(&b, p.Config[i], o) == nil, "cannot build")
			nd.Assert(f.text == b.String(), "content differs")
		}
	}
	nd.Cover("end")
}

// B04_Errors: one of 24 errors (io.EOF among them) of any operation of a creator of 2 files, where a failing write writes nothing, half or all.
func B04_Errors() {
	e := errs[nd.Pick(len(errs))]
	p := &cp.Payload{Config: []cp.Config{someConfig("a", 2, "x"), someConfig("b", 1, "y")}}
	c := &creator{fail: nd.Pick(16), err: e, wrote: nd.Pick(3)}
	nd.Show("error", e.Error())
	nd.Show("operation", itoa(c.fail))
	err := cp.BuildInto(p, c, &cp.BuildOptions{Header: nd.Pick(2) == 1})
	nd.Assert(c.bad == "", c.bad)
	nd.Assert(c.hit == (err != nil), "an error is not reported, or one is made up")
	nd.Assert(err == nil || errors.Is(err, e), "another error")
	if err == nil {
		nd.Assert(len(c.outs) == 2 && c.outs[0].text == build2(p.Config[0], &cp.BuildOptions{Header: c.outs[0].text[0] == '#'}), "other content")
	}
	// the text of one configuration
	w := &creator{fail: nd.Pick(4), err: e, wrote: c.wrote}
	err = cp.Build(&out{c: w}, p.Config[0], &cp.BuildOptions{})
	nd.Assert(w.hit == (err != nil), "an error is not reported, or one is made up")
	nd.Assert(err == nil || errors.Is(err, e), "another error")
	nd.Cover("end")
}

// B04_Strings: up to 3 files rendered to strings, twice, with a reset between or not.
func B04_Strings() {
	n := nd.Pick(tiered(3, 4))
	p := &cp.Payload{}
	for i := 0; i < n; i++ {
		p.Config = append(p.Config, someConfig([]string{"a", "b", "a"}[i], nd.Pick(5), nd.StrIn(1, "a \"\n;")))
	}
	o := &cp.BuildOptions{Tabs: nd.Pick(2) == 1}
	sc := &cp.StringsCreator{}
	nd.Assert(cp.BuildInto(p, sc, o) == nil, "error")
	k := 1
	if nd.Pick(2) == 1 {
		sc.Reset()
		nd.Assert(len(sc.Files) == 0, "files left after a reset")
		k = 0
	}
	nd.Assert(cp.BuildInto(p, sc, o) == nil, "error")
	nd.Assert(len(sc.Files) == (k+1)*n, "number of files")
	for i, f := range sc.Files {
		c := p.Config[i%n]
		nd.Assert(f.Name == c.File, "name")
		nd.Assert(f.String() == build(c.Parsed, o)+"\n", "content")
	}
	nd.Cover("end")
}

// files lists the regular files below dir with their content.
func files(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		if d.Type()&fs.ModeSymlink != 0 {
			return nil
		}
		b, err := os.ReadFile(p)
		m[strings.TrimPrefix(p, dir+"/")] = string(b)
		return err
	})
	nd.Assert(err == nil, "cannot list the files")
	return m
}

func showFiles(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += q(k) + "=" + q(m[k]) + "\n"
	}
	return s
}

func fileText(c cp.Config, o *cp.BuildOptions) string {
	return strings.TrimRight(build2(c, o), "\n") + "\n"
}

func build2(c cp.Config, o *cp.BuildOptions) string {
	var b bytes.Buffer
	nd.Assert(cp.Build(&b, c, o) == nil, "cannot build")
	return b.String()
}

// B04_Files: up to 2 (thorough: 3) files of 5 shapes with an arbitrary character each and names of 6 forms, built to a new or existing, absolute, relative
// or empty directory, over old longer files or none.
func B04_Files() {
	s := nd.Scratch()
	want := map[string]string{}
	dir, pre := [][2]string{{s, ""}, {s + "/new/d", "new/d/"}, {"", ""}, {"rel/", "rel/"}}[nd.Pick(4)][0], ""
	switch dir {
	case s + "/new/d":
		pre = "new/d/"
	case "rel/":
		pre = "rel/"
	}
	if nd.Pick(2) == 1 {
		old := strings.Repeat("old ", 100)
		nd.Assert(os.MkdirAll(s+"/"+pre+"x", 0o777) == nil && os.WriteFile(s+"/"+pre+"x/old", []byte(old), 0o666) == nil && os.WriteFile(s+"/"+pre+"a", []byte(old), 0o666) == nil, "cannot prepare")
		want[pre+"x/old"] = old
		want[pre+"a"] = old
	}
	o := &cp.BuildOptions{Header: nd.Pick(2) == 1}
	n := 1 + nd.Pick(tiered(2, 3))
	p := cp.Payload{}
	for i := 0; i < n; i++ {
		f := [][2]string{{"a", "a"}, {"d/e/b.conf", "d/e/b.conf"}, {"./d/../c", "c"}, {"x/y", "x/y"}, {"..z", "..z"}, {s + "/abs/f", ""}}[nd.Pick(6)]
		c := someConfig(f[0], 1+nd.Pick(tiered(2, 4)), nd.StrIn(1, "a \"\n"))
		p.Config = append(p.Config, c)
		k := pre + f[1]
		if f[1] == "" {
			k = "abs/f"
		}
		want[k] = fileText(c, o)
	}
	err := cp.BuildFiles(p, dir, o)
	nd.Assert(err == nil, "error")
	got := showFiles(files(s))
	nd.Show("got", got)
	nd.Assert(got == showFiles(want), "other files or contents")
	nd.Cover("end")
}

// B04_Names: file names of 4 (thorough: 5) characters, and every string constant of the code with one of 4 endings.
func B04_Names() {
	s := nd.Scratch()
	var f string
	if nd.Pick(2) == 1 {
		f = nd.CodeStr()
		nd.Assume(len(f) < 100)
		f += []string{"", ".conf", "/x", "~"}[nd.Pick(4)]
	} else {
		f = nd.StrIn(tiered(4, 5), "a./ ")
	}
	nd.Assume(f != "" && f[0] != '/' && !strings.Contains(f, "\x00"))
	// the path is what its components say
	var cs []string
	for _, c := range strings.Split(f, "/") {
		nd.Assume(c != ".." && len(c) < 200)
		if c != "" && c != "." {
			cs = append(cs, c)
		}
	}
	nd.Assume(len(cs) > 0)
	nd.Show("name", f)
	c := someConfig(f, 1, "a")
	err := cp.BuildFiles(cp.Payload{Config: []cp.Config{c}}, s, &cp.BuildOptions{})
	nd.Assert(err == nil, "error")
	got := showFiles(files(s))
	nd.Show("got", got)
	nd.Assert(got == showFiles(map[string]string{strings.Join(cs, "/"): fileText(c, &cp.BuildOptions{})}), "other files or contents")
	nd.Cover("end")
}

// B04_Places: two files with names of 12 forms, absolute or relative, that begin with, contain or extend the name of the output directory or of the
// working directory, built to a directory named in 4 ways.
func B04_Places() {
	s := nd.Scratch()
	nd.Assert(os.MkdirAll(s+"/out", 0o777) == nil, "cannot prepare")
	dir := []string{"out", s + "/out", "out/", s + "/out/"}[nd.Pick(4)]
	want := map[string]string{}
	p := cp.Payload{}
	o := &cp.BuildOptions{}
	for i := 0; i < 2; i++ {
		f := [][2]string{
			{s + "/out/f", "out/f"}, {s + "/outer/f", "outer/f"}, {s + "/f", "f"}, {s + "/o", "o"}, {s + "/out/out/f", "out/out/f"}, {s + "/x/../out/./g", "out/g"},
			{"out/f", "out/out/f"}, {"outer/f", "out/outer/f"}, {"f", "out/f"}, {"./out/g", "out/out/g"}, {s[1:] + "/out/f", "out/" + s[1:] + "/out/f"}, {"../f", "f"},
		}[nd.Pick(12)]
		c := someConfig(f[0], 1, []string{"a", "b"}[i])
		p.Config = append(p.Config, c)
		want[f[1]] = fileText(c, o)
	}
	nd.Assert(os.MkdirAll(s+"/x", 0o777) == nil, "cannot prepare")
	nd.Assert(cp.BuildFiles(p, dir, o) == nil, "error")
	nd.Assert(showFiles(files(s)) == showFiles(want), "other files or contents")
	nd.Cover("end")
}

// B04_Faults: 3 files one of which has a place that is a directory, is below a regular file, or cannot be written to; header or not.
func B04_Faults() {
	s := nd.Scratch()
	k := nd.Pick(4) // 3: none
	prep := func(err error) { nd.Assert(err == nil, "cannot prepare") }
	name := "b/" + itoa(k)
	prep(os.Mkdir(s+"/b", 0o777))
	if k < 3 {
		switch nd.Pick(3) {
		case 0:
			prep(os.MkdirAll(s+"/"+name+"/d", 0o777))
		case 1:
			prep(os.WriteFile(s+"/"+name, nil, 0o666))
			name += "/x"
		case 2:
			prep(os.Symlink("/dev/full", s+"/"+name))
		}
	}
	o := &cp.BuildOptions{Header: nd.Pick(2) == 1}
	p := cp.Payload{}
	for i := 0; i < 3; i++ {
		f := "b/" + itoa(i)
		if i == k {
			f = name
		}
		p.Config = append(p.Config, someConfig(f, nd.Pick(tiered(3, 5)), "a"))
	}
	err := cp.BuildFiles(p, s, o)
	nd.Assert((err != nil) == (k < 3), "an error is not reported, or one is made up")
	got := files(s)
	for i := 0; i < k; i++ {
		nd.Assert(got[p.Config[i].File] == fileText(p.Config[i], o), "an earlier file is not complete")
	}
	nd.Cover("end")
}

// B04_Scaled: a number of files, directories in a name, or statements next to any constant of the code.
func B04_Scaled() {
	nd.MaxSteps(800_000_000)
	s := nd.Scratch()
	n := nd.CodeInt(1, tiered(130, 1100))
	p := cp.Payload{}
	want := map[string]string{}
	add := func(c cp.Config) {
		p.Config = append(p.Config, c)
		want[c.File] = fileText(c, &cp.BuildOptions{})
	}
	switch nd.Pick(3) {
	case 0:
		nd.Assume(n <= tiered(50, 200))
		for i := 0; i < n; i++ {
			add(someConfig("f"+itoa(i), 1, "a"))
		}
	case 1:
		nd.Assume(n <= 100)
		add(someConfig(strings.Repeat("d/", n)+"f", 1, "a"))
	case 2:
		c := someConfig("f", 1, "a")
		for i := 0; i < n; i++ {
			c.Parsed = append(c.Parsed, &cp.Directive{Directive: "d", Args: []string{"e"}, Line: i + 2})
		}
		add(c)
	}
	nd.Assert(cp.BuildFiles(p, s, &cp.BuildOptions{}) == nil, "error")
	nd.Assert(showFiles(files(s)) == showFiles(want), "other files or contents")
	sc := &cp.StringsCreator{}
	nd.Assert(cp.BuildInto(&p, sc, &cp.BuildOptions{}) == nil && len(sc.Files) == len(p.Config), "files missing")
	nd.Cover("end")
}
