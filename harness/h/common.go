package h

import (
	"errors"
	"io"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// tok is a token of the reference lexer.
type tok struct {
	val    string
	line   int
	quoted bool
	err    string
}

// unit is what the grammar treats as one character: a rune, or a backslash with the rune after it.
type unit struct {
	s     string
	start int // line on which it starts
	r     rune
	esc   bool
}

// units splits text the way the grammar sees it: carriage returns do not count, a final lone backslash is dropped.
func units(text string) []unit {
	var us []unit
	line := 1
	esc := false
	escLine := 0
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		s := text[i : i+n]
		if r == utf8.RuneError && n == 1 {
			s = "\uFFFD"
		}
		i += n
		l := line
		if r == '\n' {
			line++
		}
		if r == '\r' {
			continue
		}
		if esc {
			esc = false
			us = append(us, unit{"\\" + s, escLine, r, true})
			continue
		}
		if r == '\\' {
			esc, escLine = true, l
			continue
		}
		us = append(us, unit{s, l, r, false})
	}
	return us
}

func space(u unit) bool { return !u.esc && unicode.IsSpace(u.r) }

func is(u unit, r rune) bool { return !u.esc && u.r == r }

func isDelim(u unit) bool { return !u.esc && (u.r == '{' || u.r == '}' || u.r == ';') }

// refLex is the reference tokenisation, written from the grammar: look at the first unit of an item to know what
// it is, and take as many units as that item has.
func refLex(text string) []tok {
	us := units(text)
	line := 1 + strings.Count(text, "\n")
	var out []tok
	depth := 0
	afterDelim := true
	for i := 0; i < len(us); {
		u := us[i]
		switch {
		case space(u):
			i++
		case is(u, '#'):
			t := tok{line: u.start}
			v := ""
			for i < len(us) && us[i].r != '\n' {
				v += us[i].s
				i++
			}
			i++
			t.val = v
			out = append(out, t)
		case is(u, '"'), is(u, '\''):
			t := tok{line: u.start, quoted: true}
			v := ""
			i++
			for i < len(us) && !is(us[i], u.r) {
				if us[i].esc && us[i].r == u.r {
					v += u.s
				} else {
					v += us[i].s
				}
				i++
			}
			i++
			t.val = v
			out = append(out, t)
			afterDelim = false
		case isDelim(u):
			if u.r != '}' && afterDelim {
				return append(out, tok{line: u.start, err: "unexpected \"" + u.s + "\""})
			}
			if u.r == '{' {
				depth++
			}
			if u.r == '}' {
				depth--
			}
			if depth < 0 {
				return append(out, tok{line: u.start, err: "unexpected \"}\""})
			}
			out = append(out, tok{val: u.s, line: u.start})
			afterDelim = true
			i++
		default:
			t := tok{line: u.start}
			v := ""
			inVar, first := false, true
			for i < len(us) {
				u := us[i]
				if inVar {
					v += u.s
					i++
					if u.r == '}' || space(u) {
						inVar = false
					}
					continue
				}
				if space(u) {
					i++
					break
				}
				if is(u, '{') && !first && us[i-1].r == '$' {
					inVar = true
				} else if isDelim(u) {
					break
				}
				v += u.s
				first = false
				i++
			}
			t.val = v
			out = append(out, t)
			afterDelim = false
		}
	}
	if depth > 0 {
		out = append(out, tok{line: line, err: "unexpected end of file, expecting \"}\""})
	}
	return out
}

// lexAll collects what the lexer delivers.
func lexAll(r io.Reader, lo cp.LexOptions) []cp.NgxToken {
	var ts []cp.NgxToken
	for t := range cp.LexWithOptions(r, lo) {
		ts = append(ts, t)
	}
	return ts
}

func lexStr(s string) []cp.NgxToken { return lexAll(strings.NewReader(s), cp.LexOptions{}) }

func what(err error) string {
	var pe *cp.ParseError
	if errors.As(err, &pe) {
		return pe.What
	}
	return err.Error()
}

func lineOf(err error) int {
	var pe *cp.ParseError
	if errors.As(err, &pe) && pe.Line != nil {
		return *pe.Line
	}
	return -1
}

func itoa(n int) string { return strconv.Itoa(n) }

func btoa(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// showToks renders tokens for reports.
func showToks(ts []cp.NgxToken) string {
	s := ""
	for _, t := range ts {
		s += "|" + t.Value + "@" + itoa(t.Line)
		if t.IsQuoted {
			s += "q"
		}
		if t.Error != nil {
			s += "!" + what(t.Error) + "@" + itoa(lineOf(t.Error))
		}
	}
	return s
}

func showRef(ts []tok) string {
	s := ""
	for _, t := range ts {
		s += "|" + t.val + "@" + itoa(t.line)
		if t.quoted {
			s += "q"
		}
		if t.err != "" {
			s += "!" + t.err
		}
	}
	return s
}

// rc makes a reader a file.
type rc struct{ io.Reader }

func (rc) Close() error { return nil }

var errNotFound = errors.New("no such file")

// vfs is a set of files for parsing.
type vfs struct {
	names  []string
	texts  []string
	opened []string
}

func (v *vfs) add(name, text string) {
	v.names = append(v.names, name)
	v.texts = append(v.texts, text)
}

func (v *vfs) open(p string) (io.ReadCloser, error) {
	v.opened = append(v.opened, p)
	for i, n := range v.names {
		if n == p {
			return rc{strings.NewReader(v.texts[i])}, nil
		}
	}
	return nil, errNotFound
}

func oneFile(text string) *vfs {
	v := &vfs{}
	v.add("/etc/nginx/nginx.conf", text)
	return v
}

const mainConf = "/etc/nginx/nginx.conf"

func noGlob(string) ([]string, error) { return nil, nil }

// lenient accepts every statement: directives nobody knows are not checked.
func nothingKnown(string) ([]uint, bool) { return nil, false }

func luaLex() cp.LexOptions {
	return cp.LexOptions{Lexers: []cp.RegisterLexer{(&cp.Lua{}).RegisterLexer()}}
}

// tree renders directives; lines and file names are included on request.
func tree(ds cp.Directives, lines, files bool) string {
	s := ""
	for _, d := range ds {
		s += "<" + q(d.Directive)
		if lines {
			s += "@" + itoa(d.Line)
		}
		if files {
			s += "%" + q(d.File)
		}
		for _, a := range d.Args {
			s += " " + q(a)
		}
		if d.Comment != nil {
			s += "#" + q(*d.Comment)
		}
		if d.IsMapBlockParameter {
			s += "&"
		}
		if d.Includes != nil {
			s += "+"
			for _, n := range d.Includes {
				s += itoa(n) + ","
			}
		}
		if d.Block != nil {
			s += "{" + tree(d.Block, lines, files) + "}"
		}
		s += ">"
	}
	return s
}

// q makes the end of a value unmistakable.
func q(s string) string { return itoa(len(s)) + "'" + s + "'" }
