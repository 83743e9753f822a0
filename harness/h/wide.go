package h

import (
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["L02_Wide"] = L02_Wide
	All["L03_Wide"] = L03_Wide
	All["L05_Wide"] = L05_Wide
	All["L07_Wide"] = L07_Wide
	All["B01_Wide"] = B01_Wide
	All["B02_Wide"] = B02_Wide
	All["B05_Wide"] = B05_Wide
}

// wide is an arbitrary character outside ASCII, in UTF-8.
func wide() string {
	r := nd.Uint32()
	k := nd.Pick(3)
	lo := []uint32{0x80, 0x800, 0x10000}[k]
	hi := []uint32{0x7ff, 0xffff, 0x10ffff}[k]
	nd.Assume(r >= lo && r <= hi && (r < 0xd800 || r > 0xdfff))
	c := func(n uint) byte { return byte(0x80 | r>>n&0x3f) }
	switch k {
	case 0:
		return string([]byte{byte(0xc0 | r>>6), c(0)})
	case 1:
		return string([]byte{byte(0xe0 | r>>12), c(6), c(0)})
	}
	return string([]byte{byte(0xf0 | r>>18), c(12), c(6), c(0)})
}

func wideIn() string {
	pre := []string{"", "a", "a ", "\"", "#", "a\\", "$", "a b;\n", "${"}
	post := []string{"", "a;", "\n{", "\" c;"}
	return pre[nd.Pick(len(pre))] + wide() + post[nd.Pick(len(post))]
}

// L02_Wide: an arbitrary character outside ASCII in 36 surroundings.
func L02_Wide() { compareLex(wideIn(), cmpValues|cmpErrors) }

// L03_Wide: an arbitrary character outside ASCII in 36 surroundings.
func L03_Wide() { compareLex(wideIn(), cmpLines) }

// L05_Wide: an arbitrary character outside ASCII in 36 surroundings, the first 3 (thorough: 4) reads delivering 0, 1, 2 or all bytes.
func L05_Wide() {
	s := wideIn()
	nd.Show("text", s)
	sameTokens(lexAll(chunks(s, tiered(3, 4)), cp.LexOptions{}), lexStr(s))
	nd.Cover("end")
}

// L07_Wide: an arbitrary character outside ASCII in Lua code, among 5 surroundings.
func L07_Wide() {
	pre := []string{"", "a\n", "'", "\\", "{"}
	post := []string{"", "b", "'", "\n", "}"}
	k := nd.Pick(len(pre))
	s := pre[k] + wide() + post[k]
	nd.Show("text", s)
	want := "content_by_lua_block {" + s + "} b;"
	ts := lexAll(strings.NewReader(want), luaLex())
	nd.Assert(len(ts) == 5 && ts[1].Value == s && ts[2].Value == ";" && ts[3].Value == "b", "the code is not one token")
	nd.Cover("end")
}

// B01_Wide: an arbitrary character outside ASCII in 36 surroundings.
func B01_Wide() { roundTrip(wideIn()) }

// B02_Wide: an arbitrary character outside ASCII alone or next to an arbitrary one of 9 in an argument of a statement or block.
func B02_Wide() {
	c := nd.StrIn(nd.Pick(2), "a \"\\;{#$\n")
	v := []string{wide() + c, c + wide()}[nd.Pick(2)]
	nd.Assume(expressible(v))
	nd.Show("value", v)
	d := &cp.Directive{Directive: "a", Args: []string{"b"}, Line: 1}
	switch nd.Pick(3) {
	case 0:
		d.Args = []string{v, "c"}
	case 1:
		d.Args = []string{"b", v}
	case 2:
		d.Args = []string{v}
		d.Block = cp.Directives{}
	}
	s := build(cp.Directives{d}, &cp.BuildOptions{})
	nd.Show("built", s)
	p, err := lenient(s, cp.LexOptions{})
	nd.Assert(err == nil && p.Status == "ok" && len(p.Config[0].Parsed) == 1, "the built text is not accepted")
	nd.Assert(tree(p.Config[0].Parsed, false, false) == tree(cp.Directives{d}, false, false), "the built text means something else")
	nd.Cover("end")
}

// B05_Wide: an arbitrary character outside ASCII in the name, an argument, the comment or the file of a directive.
func B05_Wide() {
	v := wide()
	d := &cp.Directive{Directive: "a", Args: []string{"b"}, Line: 1}
	switch nd.Pick(4) {
	case 0:
		d.Directive = v
	case 1:
		d.Args = []string{"b", v + "c"}
	case 2:
		c := v
		d.Directive, d.Args, d.Comment = "#", []string{}, &c
	case 3:
		d.File = v
	}
	sameThroughJSON(onePayload(cp.Directives{d}))
}
