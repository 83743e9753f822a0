package h

import (
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["L02_Names"] = L02_Names
	All["L03_Names"] = L03_Names
	All["L04_Names"] = L04_Names
	All["P02_Pairs"] = P02_Pairs
	All["B02_Pairs"] = B02_Pairs
	All["B01_Pairs"] = B01_Pairs
}

// named is a string constant of the code among other words, with arbitrary characters next to it.
func named(set string) string {
	n := nd.CodeStr()
	c := nd.StrIn(2, set)
	return []string{n + c + "b {c;}", "a " + n + c + ";", "a {" + n + c[:1] + " \"d e\"" + c[1:] + "\n}", c[:1] + n + " " + c[1:] + "\n;"}[nd.Pick(4)]
}

// L02_Names: every string constant of the code as a word in 4 places, with 2 characters of any class next to it.
func L02_Names() { compareLex(named("a${};\"\\# \n"), cmpValues) }

// L03_Names: every string constant of the code as a word in 4 places, with 2 characters next to it.
func L03_Names() { compareLex(named("{};\"\\#\n"), cmpLines) }

// L04_Names: every string constant of the code as a word in 4 places, with 2 characters next to it.
func L04_Names() { compareLex(named("a${};\"#\n"), cmpErrors) }

// wordOf quotes what is not a word.
func wordOf(n string) string {
	if strings.ContainsAny(n, " \n\t\r{};\"'\\#$") || n == "" {
		return quoteArg(n)
	}
	return n
}

// P02_Pairs: every pair of string constants of the code as name and argument, or as block and statement.
func P02_Pairs() {
	n, m := nd.CodeStr(), nd.CodeStr()
	nd.Assume(!strings.HasPrefix(n, "include") && !strings.HasPrefix(m, "include"))
	a, b := wordOf(n), wordOf(m)
	mirrored([]string{a + " " + b + ";c;", a + " x {" + b + " y;}c;"}[nd.Pick(2)], &ref{comments: true})
	nd.Cover("end")
}

// B02_Pairs: every pair of string constants of the code as name and argument, or as block and statement.
func B02_Pairs() {
	n, m := nd.CodeStr(), nd.CodeStr()
	nd.Assume(expressible(n) && expressible(m) && n != "if" && n != "#" && m != "if" && m != "#")
	if nd.Pick(2) == 0 {
		exact(cp.Directives{{Directive: n, Args: []string{m}, Line: 1}}, []string{n, m, " ;"})
		return
	}
	exact(cp.Directives{{Directive: n, Args: []string{}, Line: 1, Block: cp.Directives{{Directive: m, Args: []string{"x"}, Line: 2}}}}, []string{n, " {", m, "x", " ;", " }"})
}

// B01_Pairs: every pair of string constants of the code as name and argument, or as block and statement.
func B01_Pairs() {
	a, b := wordOf(nd.CodeStr()), wordOf(nd.CodeStr())
	roundTrip([]string{a + " " + b + ";c;", a + " x {" + b + " y;}c;"}[nd.Pick(2)])
}
