package models

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A model of encoding/json on top of a small reflection: a value is represented by a pointer to it.

const (
	rkNil = iota
	rkBool
	rkInt
	rkUint
	rkFloat
	rkString
	rkSlice
	rkArray
	rkPtr
	rkStruct
	rkMap
	rkIface
	rkFunc
	rkOther
)

func rKind(p any) int                                          { return 0 }
func rTypeName(p any) string                                   { return "" }
func rJSONFields(p any) int                                    { return 0 }
func rJSONField(p any, i int) (name string, opts, path string) { return }
func rField(p any, i int) any                                  { return nil }
func rFieldNamed(p any, name string) any                       { return nil }
func rLen(p any) int                                           { return 0 }
func rIndex(p any, i int) any                                  { return nil }
func rNil(p any) bool                                          { return false }
func rLoad(p any) any                                          { return nil }
func rBox(x any) any                                           { return nil }
func rNew(p any) any                                           { return nil }
func rZero(p any)                                              {}
func rGrow(p any) any                                          { return nil }
func rMake(p any)                                              {}
func rSetStr(p any, s string)                                  {}
func rSetBool(p any, b bool)                                   {}
func rSetInt(p any, n int64) bool                              { return false }
func rSetAny(p any, x any) bool                                { return false }
func rStr(p any) string                                        { return "" }
func rBool(p any) bool                                         { return false }
func rInt(p any) int64                                         { return 0 }
func rMapLen(p any) int                                        { return 0 }
func rMapAt(p any, i int) (k, v any)                           { return }
func rMapNew(p any) (k, v any)                                 { return }
func rMapSet(p, k, v any)                                      {}

type jenc struct {
	b    []byte
	html bool
}

func (e *jenc) str(s string) {
	const hex = "0123456789abcdef"
	e.b = append(e.b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(s[i:])
			switch {
			case r == utf8.RuneError && n == 1:
				e.b = append(e.b, `\ufffd`...)
			case r == 0x2028 || r == 0x2029:
				e.b = append(e.b, `\u202`...)
				e.b = append(e.b, hex[r&15])
			default:
				e.b = append(e.b, s[i:i+n]...)
			}
			i += n
			continue
		}
		i++
		switch {
		case c == '"' || c == '\\':
			e.b = append(e.b, '\\', c)
		case c == '\n':
			e.b = append(e.b, '\\', 'n')
		case c == '\r':
			e.b = append(e.b, '\\', 'r')
		case c == '\t':
			e.b = append(e.b, '\\', 't')
		case c == '\b':
			e.b = append(e.b, '\\', 'b')
		case c == '\f':
			e.b = append(e.b, '\\', 'f')
		case c < 0x20 || e.html && (c == '<' || c == '>' || c == '&'):
			e.b = append(e.b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
		default:
			e.b = append(e.b, c)
		}
	}
	e.b = append(e.b, '"')
}

// raw appends the result of a method: compacted and checked.
func (e *jenc) raw(b []byte) error {
	d := &jdec{s: string(b)}
	if _, err := d.top(); err != nil {
		return err
	}
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			if e.html && (c == '<' || c == '>' || c == '&') {
				const hex = "0123456789abcdef"
				e.b = append(e.b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
				continue
			}
			e.b = append(e.b, c)
			if c == '\\' {
				i++
				e.b = append(e.b, b[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		if jspace(c) {
			continue
		}
		in = c == '"'
		e.b = append(e.b, c)
	}
	return nil
}

func jspace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

func (e *jenc) methods(x any) (bool, error) {
	switch x := x.(type) {
	case json.Marshaler:
		b, err := x.MarshalJSON()
		if err == nil {
			err = e.raw(b)
		}
		if err != nil {
			return true, &json.MarshalerError{Err: err}
		}
		return true, nil
	case encoding.TextMarshaler:
		b, err := x.MarshalText()
		if err != nil {
			return true, &json.MarshalerError{Err: err}
		}
		e.str(string(b))
		return true, nil
	}
	return false, nil
}

func jempty(p any) bool {
	switch rKind(p) {
	case rkBool:
		return !rBool(p)
	case rkInt, rkUint:
		return rInt(p) == 0
	case rkString, rkSlice, rkArray, rkMap:
		return rLen(p) == 0
	case rkPtr, rkIface:
		return rNil(p)
	}
	return false
}

func (e *jenc) value(p any, addr bool) error {
	k := rKind(p)
	if (k == rkPtr || k == rkIface) && rNil(p) {
		e.b = append(e.b, "null"...)
		return nil
	}
	if k == rkIface {
		return e.value(rBox(rLoad(p)), false)
	}
	if k != rkPtr && addr {
		if done, err := e.methods(p); done {
			return err
		}
	}
	if done, err := e.methods(rLoad(p)); done {
		return err
	}
	switch k {
	case rkBool:
		if rBool(p) {
			e.b = append(e.b, "true"...)
		} else {
			e.b = append(e.b, "false"...)
		}
	case rkInt, rkUint:
		e.b = append(e.b, strconv.FormatInt(rInt(p), 10)...)
	case rkString:
		e.str(rStr(p))
	case rkPtr:
		return e.elem(p)
	case rkSlice, rkArray:
		if k == rkSlice && rNil(p) {
			e.b = append(e.b, "null"...)
			return nil
		}
		e.b = append(e.b, '[')
		for i := 0; i < rLen(p); i++ {
			if i > 0 {
				e.b = append(e.b, ',')
			}
			if err := e.value(rIndex(p, i), k == rkSlice || addr); err != nil {
				return err
			}
		}
		e.b = append(e.b, ']')
	case rkMap:
		if rNil(p) {
			e.b = append(e.b, "null"...)
			return nil
		}
		n := rMapLen(p)
		ks := make([]string, n)
		vs := make([]any, n)
		for i := 0; i < n; i++ {
			mk, mv := rMapAt(p, i)
			if rKind(mk) != rkString {
				return errors.New("json: map keys other than strings are not modelled")
			}
			ks[i], vs[i] = rStr(mk), mv
			for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
				ks[j], ks[j-1] = ks[j-1], ks[j]
				vs[j], vs[j-1] = vs[j-1], vs[j]
			}
		}
		e.b = append(e.b, '{')
		for i := range ks {
			if i > 0 {
				e.b = append(e.b, ',')
			}
			e.str(ks[i])
			e.b = append(e.b, ':')
			if err := e.value(vs[i], false); err != nil {
				return err
			}
		}
		e.b = append(e.b, '}')
	case rkStruct:
		e.b = append(e.b, '{')
		first := true
		for i := 0; i < rJSONFields(p); i++ {
			name, opts, path := rJSONField(p, i)
			f, a := p, addr
			for j := 0; j < len(path) && f != nil; j++ {
				if rKind(f) == rkPtr {
					if rNil(f) {
						f = nil
						break
					}
					f, a = rLoad(f), true
				}
				f = rField(f, int(path[j]))
			}
			if f == nil || strings.Contains(opts, ",omitempty,") && jempty(f) {
				continue
			}
			if strings.Contains(opts, ",omitzero,") {
				switch k := rKind(f); {
				case k == rkSlice || k == rkMap:
					if rNil(f) {
						continue
					}
				case k == rkStruct || k == rkArray:
					return errors.New("json: omitzero of this type is not modelled")
				case jempty(f):
					continue
				}
			}
			if !first {
				e.b = append(e.b, ',')
			}
			first = false
			e.str(name)
			e.b = append(e.b, ':')
			if k := rKind(f); strings.Contains(opts, ",string,") && (k == rkInt || k == rkUint || k == rkBool || k == rkString) {
				in := &jenc{html: e.html}
				if err := in.value(f, a); err != nil {
					return err
				}
				e.str(string(in.b))
				continue
			}
			if err := e.value(f, a); err != nil {
				return err
			}
		}
		e.b = append(e.b, '}')
	default:
		return errors.New("json: unsupported type: " + rTypeName(p))
	}
	return nil
}

// elem encodes what a pointer points to.
func (e *jenc) elem(p any) error { return e.value(rLoad(p), true) }

func JSONMarshal(v any) ([]byte, error) {
	e := &jenc{html: true}
	if v == nil {
		return []byte("null"), nil
	}
	if err := e.value(rBox(v), false); err != nil {
		return nil, err
	}
	return e.b, nil
}

func JSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	b, err := JSONMarshal(v)
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	err = JSONIndent(&out, b, prefix, indent)
	return out.Bytes(), err
}

func JSONIndent(dst *bytes.Buffer, b []byte, prefix, indent string) error {
	depth := 0
	nl := func() {
		dst.WriteString("\n" + prefix + strings.Repeat(indent, depth))
	}
	for i := 0; i < len(b); i++ {
		c := b[i]
		switch {
		case c == '"':
			j := i + 1
			for b[j] != '"' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			dst.Write(b[i : j+1])
			i = j
		case jspace(c):
		case c == '{' || c == '[':
			dst.WriteByte(c)
			j := i + 1
			for jspace(b[j]) {
				j++
			}
			if b[j] == c+2 {
				dst.WriteByte(b[j])
				i = j
				continue
			}
			depth++
			nl()
		case c == '}' || c == ']':
			depth--
			nl()
			dst.WriteByte(c)
		case c == ',':
			dst.WriteByte(c)
			nl()
		case c == ':':
			dst.WriteString(": ")
		default:
			dst.WriteByte(c)
		}
	}
	return nil
}

// jv is a decoded value.
type jv struct {
	k    byte // n null, t true, f false, 0 number, s string, [ array, { object
	s    string
	raw  string
	a    []*jv
	keys []string
}

type jdec struct {
	s string
	i int
}

var errSyntax = errors.New("invalid JSON")

func (d *jdec) ws() {
	for d.i < len(d.s) && jspace(d.s[d.i]) {
		d.i++
	}
}

func (d *jdec) top() (*jv, error) {
	v, err := d.value()
	if err != nil {
		return nil, err
	}
	d.ws()
	if d.i < len(d.s) {
		return nil, errSyntax
	}
	return v, nil
}

func (d *jdec) lit(s string) bool {
	if strings.HasPrefix(d.s[d.i:], s) {
		d.i += len(s)
		return true
	}
	return false
}

func (d *jdec) value() (*jv, error) {
	d.ws()
	if d.i >= len(d.s) {
		return nil, errSyntax
	}
	start := d.i
	v, err := d.value1()
	if err == nil {
		v.raw = d.s[start:d.i]
	}
	return v, err
}

func (d *jdec) value1() (*jv, error) {
	switch c := d.s[d.i]; {
	case c == '"':
		s, err := d.str()
		return &jv{k: 's', s: s}, err
	case c == 'n' && d.lit("null"):
		return &jv{k: 'n'}, nil
	case c == 't' && d.lit("true"):
		return &jv{k: 't'}, nil
	case c == 'f' && d.lit("false"):
		return &jv{k: 'f'}, nil
	case c == '[':
		d.i++
		v := &jv{k: '['}
		d.ws()
		if d.lit("]") {
			return v, nil
		}
		for {
			x, err := d.value()
			if err != nil {
				return nil, err
			}
			v.a = append(v.a, x)
			d.ws()
			if d.lit("]") {
				return v, nil
			}
			if !d.lit(",") {
				return nil, errSyntax
			}
		}
	case c == '{':
		d.i++
		v := &jv{k: '{'}
		d.ws()
		if d.lit("}") {
			return v, nil
		}
		for {
			d.ws()
			if d.i >= len(d.s) || d.s[d.i] != '"' {
				return nil, errSyntax
			}
			k, err := d.str()
			if err != nil {
				return nil, err
			}
			d.ws()
			if !d.lit(":") {
				return nil, errSyntax
			}
			x, err := d.value()
			if err != nil {
				return nil, err
			}
			v.keys = append(v.keys, k)
			v.a = append(v.a, x)
			d.ws()
			if d.lit("}") {
				return v, nil
			}
			if !d.lit(",") {
				return nil, errSyntax
			}
		}
	}
	return d.number()
}

func (d *jdec) digits() bool {
	i := d.i
	for d.i < len(d.s) && d.s[d.i] >= '0' && d.s[d.i] <= '9' {
		d.i++
	}
	return d.i > i
}

func (d *jdec) number() (*jv, error) {
	i := d.i
	d.lit("-")
	if !d.lit("0") && !d.digits() {
		return nil, errSyntax
	}
	if d.lit(".") && !d.digits() {
		return nil, errSyntax
	}
	if d.lit("e") || d.lit("E") {
		if !d.lit("+") {
			d.lit("-")
		}
		if !d.digits() {
			return nil, errSyntax
		}
	}
	return &jv{s: d.s[i:d.i]}, nil
}

func (d *jdec) hex4() (rune, bool) {
	if d.i+4 > len(d.s) {
		return 0, false
	}
	r := rune(0)
	for _, c := range []byte(d.s[d.i : d.i+4]) {
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			return 0, false
		}
	}
	d.i += 4
	return r, true
}

func (d *jdec) str() (string, error) {
	d.i++
	var b []byte
	for d.i < len(d.s) {
		c := d.s[d.i]
		switch {
		case c == '"':
			d.i++
			return string(b), nil
		case c < 0x20:
			return "", errSyntax
		case c == '\\':
			if d.i+1 >= len(d.s) {
				return "", errSyntax
			}
			c = d.s[d.i+1]
			d.i += 2
			switch c {
			case '"', '\\', '/':
				b = append(b, c)
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'u':
				r, ok := d.hex4()
				if !ok {
					return "", errSyntax
				}
				if r >= 0xd800 && r < 0xe000 {
					hi := r
					r = utf8.RuneError
					if hi < 0xdc00 && strings.HasPrefix(d.s[d.i:], `\u`) {
						j := d.i
						d.i += 2
						lo, ok := d.hex4()
						if !ok {
							return "", errSyntax
						}
						if lo >= 0xdc00 && lo < 0xe000 {
							r = (hi-0xd800)<<10 | (lo - 0xdc00) + 0x10000
						} else {
							d.i = j
						}
					}
				}
				b = utf8.AppendRune(b, r)
			default:
				return "", errSyntax
			}
		case c < utf8.RuneSelf:
			b = append(b, c)
			d.i++
		default:
			r, n := utf8.DecodeRuneInString(d.s[d.i:])
			b = utf8.AppendRune(b, r)
			d.i += n
		}
	}
	return "", errSyntax
}

// jset decodes into *p; it goes on after a mismatch and returns the first.
func jset(p any, v *jv) error {
	mismatch := func() error {
		return &json.UnmarshalTypeError{Value: "value", Field: rTypeName(p)}
	}
	for {
		k := rKind(p)
		if k == rkPtr && v.k == 'n' {
			rZero(p)
			return nil
		}
		if u, ok := p.(json.Unmarshaler); ok && k != rkPtr {
			return u.UnmarshalJSON([]byte(v.raw))
		}
		if u, ok := p.(encoding.TextUnmarshaler); ok && k != rkPtr && v.k != 'n' {
			if v.k != 's' {
				return mismatch()
			}
			return u.UnmarshalText([]byte(v.s))
		}
		if k != rkPtr {
			break
		}
		if rNil(p) {
			p = rNew(p)
		} else {
			p = rLoad(p)
		}
	}
	k := rKind(p)
	if k == rkIface {
		if v.k == 'n' {
			rZero(p)
			return nil
		}
		if !rSetAny(p, jany(v)) {
			return mismatch()
		}
		return nil
	}
	var first error
	keep := func(err error) {
		if first == nil {
			first = err
		}
	}
	switch v.k {
	case 'n':
		if k == rkSlice || k == rkMap {
			rZero(p)
		}
	case 't', 'f':
		if k != rkBool {
			return mismatch()
		}
		rSetBool(p, v.k == 't')
	case 's':
		if k != rkString {
			return mismatch()
		}
		rSetStr(p, v.s)
	case 0:
		if k != rkInt && k != rkUint {
			return mismatch()
		}
		n, err := strconv.ParseInt(v.s, 10, 64)
		if err != nil || !rSetInt(p, n) {
			return mismatch()
		}
	case '[':
		if k != rkSlice {
			return mismatch()
		}
		rZero(p)
		if len(v.a) == 0 {
			rMake(p)
		}
		for _, x := range v.a {
			keep(jset(rGrow(p), x))
		}
	case '{':
		switch k {
		case rkMap:
			if rNil(p) {
				rMake(p)
			}
			for i, x := range v.a {
				mk, mv := rMapNew(p)
				if rKind(mk) != rkString {
					return mismatch()
				}
				keep(jset(mv, x))
				rSetStr(mk, v.keys[i])
				rMapSet(p, mk, mv)
			}
		case rkStruct:
			n := rJSONFields(p)
			for i, x := range v.a {
				best := -1
				for j := n - 1; j >= 0; j-- {
					name, _, _ := rJSONField(p, j)
					if name == v.keys[i] {
						best = j
						break
					}
					if strings.EqualFold(name, v.keys[i]) {
						best = j
					}
				}
				if best < 0 {
					continue
				}
				_, opts, path := rJSONField(p, best)
				f := p
				for j := 0; j < len(path); j++ {
					if rKind(f) == rkPtr {
						if rNil(f) {
							f = rNew(f)
						} else {
							f = rLoad(f)
						}
					}
					f = rField(f, int(path[j]))
				}
				if k := rKind(f); strings.Contains(opts, ",string,") && (k == rkInt || k == rkUint || k == rkBool || k == rkString) && x.k != 'n' {
					if x.k != 's' {
						keep(mismatch())
						continue
					}
					in, err := (&jdec{s: x.s}).top()
					if err != nil {
						keep(mismatch())
						continue
					}
					x = in
				}
				keep(jset(f, x))
			}
		default:
			return mismatch()
		}
	}
	return first
}

func jany(v *jv) any {
	switch v.k {
	case 't', 'f':
		return v.k == 't'
	case 's':
		return v.s
	case 0:
		f, _ := strconv.ParseFloat(v.s, 64)
		return f
	case '[':
		r := []any{}
		for _, x := range v.a {
			r = append(r, jany(x))
		}
		return r
	case '{':
		r := map[string]any{}
		for i, x := range v.a {
			r[v.keys[i]] = jany(x)
		}
		return r
	}
	return nil
}

func JSONUnmarshal(b []byte, v any) error {
	d := &jdec{s: string(b)}
	x, err := d.top()
	if err != nil {
		return err
	}
	if v == nil || rKind(rBox(v)) != rkPtr || rNil(rBox(v)) {
		return errors.New("json: Unmarshal(non-pointer or nil)")
	}
	return jset(v, x)
}

func JSONValid(b []byte) bool {
	_, err := (&jdec{s: string(b)}).top()
	return err == nil
}

// Encoders and decoders.

type jstream struct {
	key            any
	w              io.Writer
	r              io.Reader
	html           bool
	prefix, indent string
	buf            string
	read           bool
	strict         bool
}

var streams []*jstream

func streamOf(key any) *jstream {
	for _, s := range streams {
		if s.key == key {
			return s
		}
	}
	return nil
}

func JSONNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	streams = append(streams, &jstream{key: e, w: w, html: true})
	return e
}

func JSONSetEscapeHTML(e *json.Encoder, on bool) { streamOf(e).html = on }
func JSONSetIndent(e *json.Encoder, prefix, ind string) {
	s := streamOf(e)
	s.prefix, s.indent = prefix, ind
}

func JSONEncode(e *json.Encoder, v any) error {
	s := streamOf(e)
	x := &jenc{html: s.html}
	if v == nil {
		x.b = []byte("null")
	} else if err := x.value(rBox(v), false); err != nil {
		return err
	}
	b := x.b
	if s.prefix != "" || s.indent != "" {
		var out bytes.Buffer
		JSONIndent(&out, b, s.prefix, s.indent)
		b = out.Bytes()
	}
	_, err := s.w.Write(append(b, '\n'))
	return err
}

func JSONNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	streams = append(streams, &jstream{key: d, r: r})
	return d
}

func JSONDecode(d *json.Decoder, v any) error {
	s := streamOf(d)
	if !s.read {
		b, err := io.ReadAll(s.r)
		if err != nil {
			return err
		}
		s.buf, s.read = string(b), true
	}
	dec := &jdec{s: s.buf}
	dec.ws()
	if dec.i == len(dec.s) {
		return io.EOF
	}
	x, err := dec.value()
	if err != nil {
		return err
	}
	s.buf = s.buf[dec.i:]
	return jset(v, x)
}
