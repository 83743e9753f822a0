package models

import (
	"fmt"
	"sort"
	"strings"
)

func unsupported(what string)        {}
func rExported(p any, i int) bool    { return false }
func rFieldName(p any, i int) string { return "" }
func rIsByte(p any) bool             { return false }
func rFloat(p any) float64           { return 0 }
func rUint(p any) uint64             { return 0 }

// The beginning of the layout of fmt.pp and of reflect.Value.
type fmtPP struct {
	buf                                                                     []byte
	fbuf                                                                    *[]byte
	widPresent, precPresent, minus, plus, sharp, space, zero, plusV, sharpV bool
	wid, prec                                                               int
}

type fmtValue struct {
	v    any
	a, b uintptr
}

// FmtPrintValue prints what fmt uses reflection for.
func FmtPrintValue(p *fmtPP, v fmtValue, verb rune, depth int) {
	if p.sharpV || verb == 'p' {
		unsupported("reflection in fmt")
	}
	f := "%"
	for _, x := range []struct {
		on bool
		c  string
	}{{p.minus, "-"}, {p.plus || p.plusV, "+"}, {p.sharp, "#"}, {p.space, " "}, {p.zero, "0"}} {
		if x.on {
			f += x.c
		}
	}
	if p.widPresent {
		f += fmt.Sprint(p.wid)
	}
	if p.precPresent {
		f += "." + fmt.Sprint(p.prec)
	}
	f += string(verb)
	p.buf = append(p.buf, fmtShow(rBox(v.v), f, verb, p.plusV, depth, true)...)
}

func fmtShow(p any, f string, verb rune, plusV bool, depth int, can bool) string {
	if depth > 0 && can && rKind(p) != rkIface {
		switch x := rLoad(p).(type) {
		case error, fmt.Stringer, fmt.Formatter:
			if rKind(p) != rkPtr || !rNil(p) {
				return fmt.Sprintf(f, x)
			}
		}
	}
	switch rKind(p) {
	case rkBool:
		return fmt.Sprintf(f, rBool(p))
	case rkString:
		return fmt.Sprintf(f, rStr(p))
	case rkInt:
		return fmt.Sprintf(f, rInt(p))
	case rkUint:
		return fmt.Sprintf(f, rUint(p))
	case rkFloat:
		return fmt.Sprintf(f, rFloat(p))
	case rkSlice, rkArray:
		if rIsByte(p) && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
			unsupported("reflection on bytes in fmt")
		}
		s := "["
		for i := 0; i < rLen(p); i++ {
			if i > 0 {
				s += " "
			}
			s += fmtShow(rIndex(p, i), f, verb, plusV, depth+1, can)
		}
		return s + "]"
	case rkStruct:
		s := "{"
		for i := 0; i < rNumField(p); i++ {
			if i > 0 {
				s += " "
			}
			if plusV {
				s += rFieldName(p, i) + ":"
			}
			s += fmtShow(rField(p, i), f, verb, plusV, depth+1, can && rExported(p, i))
		}
		return s + "}"
	case rkMap:
		var es []string
		for i := 0; i < rLen(p); i++ {
			k, v := rMapAt(p, i)
			if rKind(k) != rkString {
				unsupported("fmt of a map without string keys")
			}
			es = append(es, rStr(k)+"\x00"+fmtShow(k, f, verb, plusV, depth+1, can)+":"+fmtShow(v, f, verb, plusV, depth+1, can))
		}
		sort.Strings(es)
		for i, e := range es {
			_, es[i], _ = strings.Cut(e, "\x00")
		}
		return "map[" + strings.Join(es, " ") + "]"
	case rkIface:
		x := rLoad(p)
		if x == nil {
			return "<nil>"
		}
		return fmtShow(rBox(x), f, verb, plusV, depth+1, can)
	case rkPtr:
		if rNil(p) {
			return "<nil>"
		}
		if depth == 0 {
			switch q := rLoad(p); rKind(q) {
			case rkSlice, rkArray, rkStruct, rkMap:
				return "&" + fmtShow(q, f, verb, plusV, depth+1, can)
			}
		}
		unsupported("fmt of a pointer")
	case rkFunc:
		if rNil(p) {
			return "<nil>"
		}
		unsupported("fmt of a function")
	case rkNil:
		return "<nil>"
	}
	unsupported("fmt of " + rTypeName(p))
	return ""
}
