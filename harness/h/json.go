package h

import (
	"encoding/json"
	"errors"
	"strings"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["B05_Tree"] = B05_Tree
	All["B05_Text"] = B05_Text
	All["B05_Payload"] = B05_Payload
	All["B05_Parse"] = B05_Parse
	All["B05_Errors"] = B05_Errors
	All["B05_Directive"] = B05_Directive
	All["B05_Schema"] = B05_Schema
	All["B05_Scaled"] = B05_Scaled
}

// payloadText renders everything of a payload without errors.
func payloadText(p *cp.Payload) string {
	s := q(p.Status) + itoa(len(p.Errors)) + "\n"
	for _, c := range p.Config {
		s += q(c.File) + q(c.Status) + itoa(len(c.Errors)) + tree(c.Parsed, true, true) + "\n"
	}
	return s
}

// throughJSON encodes and decodes a payload.
func throughJSON(p *cp.Payload) *cp.Payload {
	var b []byte
	var err error
	switch nd.Pick(3) {
	case 0:
		b, err = json.Marshal(p)
	case 1:
		b, err = json.Marshal(*p)
	case 2:
		b, err = json.MarshalIndent(p, "", "  ")
	}
	nd.Assert(err == nil, "cannot encode")
	nd.Show("json", string(b))
	p2 := &cp.Payload{}
	err = json.Unmarshal(b, p2)
	nd.Assert(err == nil, "cannot decode")
	return p2
}

func sameThroughJSON(p *cp.Payload) {
	want := payloadText(p)
	p2 := throughJSON(p)
	got := payloadText(p2)
	nd.Show("payload", want)
	nd.Show("decoded", got)
	nd.Assert(got == want, "the decoded payload differs")
	nd.Assert(payloadText(p) == want, "encoding changed the payload")
	for i := range p.Config {
		a, b := p.Config[i].Parsed, p2.Config[i].Parsed
		for j := range a {
			nd.Assert(a[j].Equal(b[j]) && b[j].Equal(a[j]), "the decoded directive is not equal")
		}
		nd.Assert(build(a, &cp.BuildOptions{}) == build(b, &cp.BuildOptions{}), "the decoded payload builds to another text")
	}
	nd.Cover("end")
}

func onePayload(ds cp.Directives) *cp.Payload {
	return &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}, Config: []cp.Config{{File: "a.conf", Status: "ok", Errors: []cp.ConfigError{}, Parsed: ds}}}
}

// jsonStr is a string of n characters that have a meaning in JSON or HTML, or one of several longer characters.
func jsonStr(n int) string {
	if nd.Pick(2) == 0 {
		return []string{"\u00e9", "\u2028", "\U0001f600", "\ufffd", "\u2029x", "\x7f\x00"}[nd.Pick(6)]
	}
	return nd.StrIn(n, "a\"\\/<>&'\n\t\r\b\f\x01\x1f {[:,u")
}

// odd makes choices of which at most left are not the usual one.
type odd struct{ left int }

func (o *odd) pick(n int) int {
	if o.left == 0 {
		return 0
	}
	k := nd.Pick(n)
	if k > 0 {
		o.left--
	}
	return k
}

// anyDirective has parts of which some are unusual: n counts the directives left.
func anyDirective(o *odd, n *int, depth int) *cp.Directive {
	*n--
	d := &cp.Directive{Directive: []string{"d", "if", "include"}[o.pick(3)], Line: []int{1, 0, 12}[o.pick(3)]}
	switch o.pick(5) {
	case 0:
		d.Args = []string{"x", ""}
	case 1:
		d.Args = []string{}
	case 2:
		d.Args = nil
	case 3, 4:
		c := []string{"", " c"}[nd.Pick(2)]
		d.Directive, d.Args, d.Comment = "#", []string{}, &c
		return d
	}
	d.Includes = [][]int{nil, {0}, {3, 1, 3}}[o.pick(3)]
	d.File = []string{"", "f"}[o.pick(2)]
	d.IsMapBlockParameter = o.pick(2) == 1
	if depth > 0 && nd.Pick(2) == 1 {
		d.Block = cp.Directives{}
		for *n > 0 && nd.Pick(2) == 1 {
			d.Block = append(d.Block, anyDirective(o, n, depth-1))
		}
	}
	return d
}

// B05_Tree: up to 3 directives nested up to 2 (thorough: 3) deep, up to 2 (thorough: 3) of whose parts are unusual, absent or empty.
func B05_Tree() {
	n, o := 3, &odd{tiered(2, 3)}
	ds := cp.Directives{}
	for n > 0 && nd.Pick(2) == 1 {
		ds = append(ds, anyDirective(o, &n, tiered(2, 3)))
	}
	sameThroughJSON(onePayload(ds))
}

// B05_Text: any string of 2 (thorough: 3) characters with a meaning in JSON or HTML, control characters, or longer characters, in one of 6 places.
func B05_Text() {
	s := jsonStr(tiered(2, 3))
	d := &cp.Directive{Directive: "d", Args: []string{"a"}, Line: 1}
	p := onePayload(cp.Directives{d})
	switch nd.Pick(6) {
	case 0:
		d.Directive = s
	case 1:
		d.Args = []string{"x", s, s}
	case 2:
		d.Directive, d.Comment = "#", &s
	case 3:
		d.File = s
	case 4:
		p.Config[0].File = s
	case 5:
		d.Block = cp.Directives{{Directive: "e", Args: []string{s}, Line: 2}}
	}
	sameThroughJSON(p)
}

// B05_Payload: up to 1 (thorough: 2) files with or without directives, statuses of any of several values.
func B05_Payload() {
	p := &cp.Payload{Status: []string{"ok", "", "failed"}[nd.Pick(3)], Errors: [][]cp.PayloadError{nil, {}}[nd.Pick(2)]}
	n := nd.Pick(tiered(2, 3))
	for i := 0; i < n; i++ {
		c := someConfig("f"+itoa(i), nd.Pick(5), nd.StrIn(1, "a\"<"))
		c.Status = []string{"ok", ""}[nd.Pick(2)]
		if nd.Pick(2) == 1 {
			c.Errors = nil
		}
		p.Config = append(p.Config, c)
	}
	sameThroughJSON(p)
}

// B05_Parse: what is parsed from 4 (thorough: 5) characters, and from a template with an include, a map and an empty block around 2 characters.
func B05_Parse() {
	o := &cp.ParseOptions{ParseComments: true, DirectiveSources: []cp.MatchFunc{nothingKnown}}
	v := &vfs{}
	s := ""
	if nd.Pick(2) == 1 {
		s = nd.StrIn(tiered(4, 5), "a{};\"#<\\ ")
	} else {
		s = "include b;map $a $b {a " + nd.StrIn(2, "a\"&\\;") + ";}\nc{}d{#" + nd.StrIn(1, "<\\\"") + "\n}\n"
	}
	v.add(mainConf, s)
	v.add("/etc/nginx/b", "e{}")
	o.Open = v.open
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	nd.Show("text", s)
	if len(p.Errors) > 0 {
		return
	}
	sameThroughJSON(p)
	if nd.Pick(2) == 1 {
		c, err := p.Combined()
		nd.Assert(err == nil, "cannot combine")
		sameThroughJSON(c)
	}
}

// B05_Errors: payloads with errors, from 4 (thorough: 5) characters: encoding works and gives the message of every error.
func B05_Errors() {
	v := oneFile(nd.StrIn(tiered(4, 5), "a{};\"<") + []string{"", "listen;", "include <x;", "return \"<\";", "include [;"}[nd.Pick(5)])
	o := &cp.ParseOptions{Open: v.open}
	if nd.Pick(2) == 1 {
		o.ErrorOnUnknownDirectives = true
	}
	p, err := cp.Parse(mainConf, o)
	nd.Assert(err == nil, "error")
	nd.Show("text", v.texts[0])
	b, err := json.Marshal(p)
	nd.Assert(err == nil, "cannot encode")
	nd.Show("json", string(b))
	type errJSON struct {
		File  string
		Line  *int
		Error any
	}
	var r struct {
		Status string
		Errors []errJSON
		Config []struct {
			File   string
			Status string
			Errors []errJSON
		}
	}
	nd.Assert(json.Unmarshal(b, &r) == nil, "cannot decode")
	nd.Assert(r.Status == p.Status && len(r.Errors) == len(p.Errors) && len(r.Config) == len(p.Config), "parts missing")
	same := func(e errJSON, err error, line *int) {
		s, ok := e.Error.(string)
		nd.Assert(ok && s == err.Error(), "the message of an error is lost")
		nd.Assert((e.Line == nil) == (line == nil) && (line == nil || *line == *e.Line), "the line of an error is lost")
	}
	for i, e := range p.Errors {
		nd.Assert(r.Errors[i].File == e.File, "file of an error")
		same(r.Errors[i], e.Error, e.Line)
	}
	for i, c := range p.Config {
		nd.Assert(r.Config[i].Status == c.Status && r.Config[i].File == c.File && len(r.Config[i].Errors) == len(c.Errors), "parts missing")
		for j, e := range c.Errors {
			same(r.Config[i].Errors[j], e.Error, e.Line)
		}
	}
	nd.Cover("end")
}

// B05_Schema: the names and types under which the parts of a payload are found in its JSON, for payloads with every kind of statement and
// 2 arbitrary characters, some lines and includes, and errors with what the callback gives.
func B05_Schema() {
	str, line, inc := nd.StrIn(2, "a\"<"), []int{1, 0, -3, 1 << 40}[nd.Pick(4)], []int{0, 2, 1 << 40}[nd.Pick(3)]
	d := &cp.Directive{Directive: "d" + str, Args: []string{str, "x"}, Line: line}
	c := " c" + str
	d2 := &cp.Directive{Directive: "#", Args: []string{}, Line: 2, Comment: &c}
	p := onePayload(cp.Directives{d, d2})
	has := nd.Pick(32)
	nd.Assume(line == 1 || has < 2)
	nd.Assume(inc == 0 || has == 1)
	if has&1 != 0 {
		d.Includes = []int{inc, 7}
	}
	if has&2 != 0 {
		d.Block = cp.Directives{{Directive: "e", Args: []string{}, Line: 3}}
	}
	if has&4 != 0 {
		d.File = "f" + str
	}
	d.IsMapBlockParameter = has&8 != 0
	if has&16 != 0 {
		e := errors.New("w" + str)
		p.Status, p.Config[0].Status = "failed", "failed"
		p.Errors = []cp.PayloadError{{File: "a.conf", Line: &line, Error: &cp.ParseError{What: "w" + str, Line: &line}, Callback: []any{nil, "cb" + str, map[string]string{"k": str}}[nd.Pick(3)]}}
		p.Config[0].Errors = []cp.ConfigError{{Line: &line, Error: &cp.ParseError{What: e.Error()}}}
	}
	b, err := json.Marshal(p)
	nd.Assert(err == nil, "cannot encode")
	nd.Show("json", string(b))
	s := func(s string) string {
		b, err := json.Marshal(s)
		nd.Assert(err == nil, "cannot encode a string")
		return string(b)
	}
	w := `{"directive":` + s(d.Directive) + `,"line":` + itoa(line) + `,"args":[` + s(str) + `,"x"]`
	if has&4 != 0 {
		w += `,"file":` + s(d.File)
	}
	if has&1 != 0 {
		w += `,"includes":[` + itoa(inc) + `,7]`
	}
	if has&2 != 0 {
		w += `,"block":[{"directive":"e","line":3,"args":[]}]`
	}
	if has&8 != 0 {
		w += `,"mapBlockParameter":true`
	}
	w += `},{"directive":"#","line":2,"args":[],"comment":` + s(c) + `}`
	es, ces, st := "", "", `"ok"`
	if has&16 != 0 {
		st = `"failed"`
		es = `{"file":"a.conf","line":` + itoa(line) + `,"error":` + s("w"+str+" in (nofile):"+itoa(line))
		switch p.Errors[0].Callback.(type) {
		case string:
			es += `,"callback":` + s("cb"+str)
		case map[string]string:
			es += `,"callback":{"k":` + s(str) + `}`
		}
		es += `}`
		ces = `{"line":` + itoa(line) + `,"error":` + s("w"+str+" in (nofile)") + `}`
	}
	w = `{"status":` + st + `,"errors":[` + es + `],"config":[{"file":"a.conf","status":` + st + `,"errors":[` + ces + `],"parsed":[` + w + `]}]}`
	var x, y any
	nd.Assert(json.Unmarshal([]byte(w), &x) == nil, "the reference is no JSON")
	nd.Assert(json.Unmarshal(b, &y) == nil, "not JSON")
	nd.Show("expected", w)
	nd.Assert(sameJSON(x, y), "names or types differ")
	nd.Cover("end")
}

// sameJSON compares decoded JSON, in which the order of the names of an object does not matter.
func sameJSON(x, y any) bool {
	switch a := x.(type) {
	case map[string]any:
		b, ok := y.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok || !sameJSON(v, w) {
				return false
			}
		}
		return true
	case []any:
		b, ok := y.([]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameJSON(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	return x == y
}

// B05_Directive: single directives with one inside, up to 2 (thorough: 4) of whose parts are unusual, encoded by value, by pointer and in a slice.
func B05_Directive() {
	n := 2
	d := anyDirective(&odd{tiered(2, 4)}, &n, 2)
	var b []byte
	var err error
	var got cp.Directives
	switch nd.Pick(3) {
	case 0:
		b, err = json.Marshal(*d)
	case 1:
		b, err = json.Marshal(d)
	case 2:
		b, err = json.Marshal(cp.Directives{d})
		nd.Assert(err == nil && json.Unmarshal(b, &got) == nil && len(got) == 1, "cannot encode or decode")
	}
	nd.Assert(err == nil, "cannot encode")
	nd.Show("json", string(b))
	if got == nil {
		x := &cp.Directive{}
		nd.Assert(json.Unmarshal(b, x) == nil, "cannot decode")
		got = cp.Directives{x}
	}
	nd.Assert(tree(got, true, true) == tree(cp.Directives{d}, true, true), "the decoded directive differs")
	nd.Cover("end")
}

// B05_Scaled: a number of directives, arguments, levels or characters next to any constant of the code, and every string constant.
func B05_Scaled() {
	nd.MaxSteps(800_000_000)
	d := &cp.Directive{Directive: "d", Args: []string{"a"}, Line: 1}
	p := onePayload(cp.Directives{d})
	if nd.Pick(2) == 1 {
		s := nd.CodeStr()
		nd.Assume(utf8.ValidString(s))
		d.Args = []string{s}
		if nd.Pick(2) == 1 {
			d.Directive = s
		}
	} else {
		n := nd.CodeInt(1, tiered(130, 1100))
		switch nd.Pick(4) {
		case 0:
			for i := 0; i < n; i++ {
				p.Config[0].Parsed = append(p.Config[0].Parsed, &cp.Directive{Directive: "d", Args: []string{}, Line: i + 2})
			}
		case 1:
			for i := 0; i < n; i++ {
				d.Args = append(d.Args, "b")
				d.Includes = append(d.Includes, i)
			}
		case 2:
			nd.Assume(n <= 300)
			for i := 0; i < n; i++ {
				d.Block = cp.Directives{{Directive: "e", Args: []string{}, Line: i + 2}}
				d = d.Block[0]
			}
		case 3:
			d.Args = []string{strings.Repeat("<", n)}
			d.Line = n
		}
	}
	sameThroughJSON(p)
}
