// Package jsonm models encoding/json for generic values (any). The engine
// executes it in place of the reflection-driven standard library package; the
// native build used for replays runs the real encoding/json.
package jsonm

import (
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"
)

type dec struct {
	s   string
	pos int
	num bool // numbers as json.Number
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func (d *dec) bad() error { return &json.SyntaxError{Offset: int64(d.pos)} }

func (d *dec) ws() {
	for d.pos < len(d.s) && space(d.s[d.pos]) {
		d.pos++
	}
}

// Parse decodes a whole document as json.Unmarshal does, with numbers as json.Number if num.
func Parse(s string, num bool) (any, error) {
	d := &dec{s: s, num: num}
	v, err := d.value()
	if err != nil {
		return nil, err
	}
	d.ws()
	if d.pos != len(s) {
		return nil, d.bad()
	}
	return v, nil
}

// Value decodes one complete value, with numbers as json.Number if num.
func Value(s string, num bool) (any, error) {
	d := &dec{s: s, num: num}
	v, err := d.value()
	return v, err
}

// Elems splits the text of an array into the texts of its elements.
func Elems(s string) ([]string, bool) {
	d := &dec{s: s}
	d.ws()
	if d.pos == len(s) || s[d.pos] != '[' {
		return nil, false
	}
	d.pos++
	out := []string{}
	for {
		d.ws()
		if s[d.pos] == ']' {
			return out, true
		}
		if s[d.pos] == ',' {
			d.pos++
			d.ws()
		}
		st := d.pos
		d.value()
		out = append(out, s[st:d.pos])
	}
}

// Trim cuts the white space around a value.
func Trim(s string) string {
	d := &dec{s: s}
	d.ws()
	st := d.pos
	d.value()
	return s[st:d.pos]
}

// Dec models json.Decoder over the text it reads.
type Dec struct {
	s     string
	pos   int
	err   error
	state int
	stack []int
	Num   bool
}

const (
	topValue = iota
	arrayStart
	arrayValue
	arrayComma
	objectStart
	objectKey
	objectColon
	objectValue
	objectComma
)

func NewDec(s string, num bool) *Dec { return &Dec{s: s, Num: num} }

// DecRaw returns the text of the value Decode would decode.
func DecRaw(d *Dec) (string, error) {
	if d.err != nil {
		return "", d.err
	}
	x := &dec{s: d.s, pos: d.pos}
	x.ws()
	if d.state == arrayComma || d.state == objectColon {
		if x.pos == len(d.s) {
			return "", io.EOF
		}
		want := byte(',')
		if d.state == objectColon {
			want = ':'
		}
		if d.s[x.pos] != want {
			return "", &json.SyntaxError{Offset: int64(x.pos)}
		}
		x.pos++
		d.pos = x.pos
		if d.state == arrayComma {
			d.state = arrayValue
		} else {
			d.state = objectValue
		}
		x.ws()
	}
	switch d.state {
	case topValue, arrayStart, arrayValue, objectValue:
	default:
		return "", &json.SyntaxError{Offset: int64(d.pos)}
	}
	if x.pos == len(d.s) {
		d.err = io.EOF
		return "", io.EOF
	}
	st := x.pos
	if _, err := x.value(); err != nil {
		if x.pos >= len(d.s) {
			err = io.ErrUnexpectedEOF
		}
		d.err = err
		return "", err
	}
	d.pos = x.pos
	d.end()
	return d.s[st:x.pos], nil
}

func (d *Dec) end() {
	switch d.state {
	case arrayStart, arrayValue:
		d.state = arrayComma
	case objectValue:
		d.state = objectComma
	}
}

// DecMore is Decoder.More.
func DecMore(d *Dec) bool {
	x := &dec{s: d.s, pos: d.pos}
	x.ws()
	return x.pos < len(d.s) && d.s[x.pos] != ']' && d.s[x.pos] != '}'
}

// DecToken is Decoder.Token.
func DecToken(d *Dec) (json.Token, error) {
	for {
		x := &dec{s: d.s, pos: d.pos}
		x.ws()
		d.pos = x.pos
		if d.pos == len(d.s) {
			return nil, io.EOF
		}
		c := d.s[d.pos]
		bad := &json.SyntaxError{Offset: int64(d.pos)}
		allowed := d.state == topValue || d.state == arrayStart || d.state == arrayValue || d.state == objectValue
		switch {
		case c == '[' || c == '{':
			if !allowed {
				return nil, bad
			}
			d.pos++
			d.stack = append(d.stack, d.state)
			if c == '[' {
				d.state = arrayStart
			} else {
				d.state = objectStart
			}
			return json.Delim(c), nil
		case c == ']' || c == '}':
			if c == ']' && d.state != arrayStart && d.state != arrayComma || c == '}' && d.state != objectStart && d.state != objectComma {
				return nil, bad
			}
			d.pos++
			d.state = d.stack[len(d.stack)-1]
			d.stack = d.stack[:len(d.stack)-1]
			d.end()
			return json.Delim(c), nil
		case c == ':':
			if d.state != objectColon {
				return nil, bad
			}
			d.pos++
			d.state = objectValue
			continue
		case c == ',':
			if d.state == arrayComma {
				d.state = arrayValue
			} else if d.state == objectComma {
				d.state = objectKey
			} else {
				return nil, bad
			}
			d.pos++
			continue
		case c == '"' && (d.state == objectStart || d.state == objectKey):
			old := d.state
			d.state = topValue
			raw, err := DecRaw(d)
			d.state = old
			if err != nil {
				return nil, err
			}
			d.state = objectColon
			return Value(raw, false)
		}
		if !allowed {
			return nil, bad
		}
		raw, err := DecRaw(d)
		if err != nil {
			return nil, err
		}
		return Value(raw, d.Num)
	}
}

// DecRest is Decoder.Buffered.
func DecRest(d *Dec) io.Reader { return strings.NewReader(d.s[d.pos:]) }

// DecOffset is Decoder.InputOffset.
func DecOffset(d *Dec) int64 { return int64(d.pos) }

func (d *dec) value() (any, error) {
	d.ws()
	if d.pos == len(d.s) {
		return nil, d.bad()
	}
	switch c := d.s[d.pos]; {
	case c == '"':
		return d.str()
	case c == '[':
		d.pos++
		out := []any{}
		d.ws()
		if d.pos < len(d.s) && d.s[d.pos] == ']' {
			d.pos++
			return out, nil
		}
		for {
			v, err := d.value()
			if err != nil {
				return nil, err
			}
			out = append(out, v)
			d.ws()
			if d.pos == len(d.s) {
				return nil, d.bad()
			}
			c := d.s[d.pos]
			d.pos++
			if c == ']' {
				return out, nil
			}
			if c != ',' {
				return nil, d.bad()
			}
		}
	case c == '{':
		d.pos++
		out := map[string]any{}
		d.ws()
		if d.pos < len(d.s) && d.s[d.pos] == '}' {
			d.pos++
			return out, nil
		}
		for {
			d.ws()
			if d.pos == len(d.s) || d.s[d.pos] != '"' {
				return nil, d.bad()
			}
			k, err := d.str()
			if err != nil {
				return nil, err
			}
			d.ws()
			if d.pos == len(d.s) || d.s[d.pos] != ':' {
				return nil, d.bad()
			}
			d.pos++
			v, err := d.value()
			if err != nil {
				return nil, err
			}
			out[k] = v
			d.ws()
			if d.pos == len(d.s) {
				return nil, d.bad()
			}
			c := d.s[d.pos]
			d.pos++
			if c == '}' {
				return out, nil
			}
			if c != ',' {
				return nil, d.bad()
			}
		}
	case c == '-' || '0' <= c && c <= '9':
		return d.number()
	case c == 't':
		return true, d.word("true")
	case c == 'f':
		return false, d.word("false")
	case c == 'n':
		return nil, d.word("null")
	}
	return nil, d.bad()
}

func (d *dec) word(w string) error {
	if len(d.s)-d.pos < len(w) || d.s[d.pos:d.pos+len(w)] != w {
		return d.bad()
	}
	d.pos += len(w)
	return nil
}

func (d *dec) digits() bool {
	st := d.pos
	for d.pos < len(d.s) && d.s[d.pos] >= '0' && d.s[d.pos] <= '9' {
		d.pos++
	}
	return d.pos > st
}

func (d *dec) number() (any, error) {
	st := d.pos
	if d.s[d.pos] == '-' {
		d.pos++
	}
	if d.pos < len(d.s) && d.s[d.pos] == '0' {
		d.pos++
	} else if !d.digits() {
		return nil, d.bad()
	}
	if d.pos < len(d.s) && d.s[d.pos] == '.' {
		d.pos++
		if !d.digits() {
			return nil, d.bad()
		}
	}
	if d.pos < len(d.s) && (d.s[d.pos] == 'e' || d.s[d.pos] == 'E') {
		d.pos++
		if d.pos < len(d.s) && (d.s[d.pos] == '+' || d.s[d.pos] == '-') {
			d.pos++
		}
		if !d.digits() {
			return nil, d.bad()
		}
	}
	if d.num {
		return json.Number(d.s[st:d.pos]), nil
	}
	f, err := strconv.ParseFloat(d.s[st:d.pos], 64)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func hex4(s string, i int) (rune, bool) {
	if i+4 > len(s) {
		return 0, false
	}
	var r rune
	for _, c := range []byte(s[i : i+4]) {
		switch {
		case '0' <= c && c <= '9':
			c -= '0'
		case 'a' <= c && c <= 'f':
			c -= 'a' - 10
		case 'A' <= c && c <= 'F':
			c -= 'A' - 10
		default:
			return 0, false
		}
		r = r<<4 | rune(c)
	}
	return r, true
}

func (d *dec) str() (string, error) {
	d.pos++
	var out []byte
	for d.pos < len(d.s) {
		c := d.s[d.pos]
		switch {
		case c == '"':
			d.pos++
			return string(out), nil
		case c < ' ':
			return "", d.bad()
		case c == '\\':
			d.pos++
			if d.pos == len(d.s) {
				return "", d.bad()
			}
			c = d.s[d.pos]
			d.pos++
			switch c {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := hex4(d.s, d.pos)
				if !ok {
					return "", d.bad()
				}
				d.pos += 4
				if 0xd800 <= r && r < 0xe000 {
					hi := r
					r = utf8.RuneError
					if hi < 0xdc00 && d.pos+1 < len(d.s) && d.s[d.pos] == '\\' && d.s[d.pos+1] == 'u' {
						lo, ok := hex4(d.s, d.pos+2)
						if ok && 0xdc00 <= lo && lo < 0xe000 {
							d.pos += 6
							r = (hi-0xd800)<<10 | (lo - 0xdc00) + 0x10000
						}
					}
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", d.bad()
			}
		case c < utf8.RuneSelf:
			out = append(out, c)
			d.pos++
		default:
			r, n := utf8.DecodeRuneInString(d.s[d.pos:])
			out = utf8.AppendRune(out, r)
			d.pos += n
		}
	}
	return "", d.bad()
}

func hexd(n byte) byte {
	c := '0' + n
	if n > 9 {
		c = 'a' + n - 10
	}
	return c
}

// Encode is json.Marshal for generic values.
func Encode(v any, html bool) (string, error) {
	b, err := enc(nil, v, html)
	return string(b), err
}

func enc(b []byte, v any, html bool) ([]byte, error) {
	switch x := v.(type) {
	case nil:
		return append(b, "null"...), nil
	case bool:
		if x {
			return append(b, "true"...), nil
		}
		return append(b, "false"...), nil
	case string:
		return encStr(b, x, html), nil
	case float64:
		if x != x || x > 1.7976931348623157e308 || x < -1.7976931348623157e308 {
			return nil, errors.New("json: unsupported value")
		}
		f := byte('f')
		abs := x
		if abs < 0 {
			abs = -abs
		}
		if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
			f = 'e'
		}
		s := strconv.FormatFloat(x, f, -1, 64)
		if f == 'e' {
			if n := len(s); n >= 4 && s[n-4] == 'e' && s[n-3] == '-' && s[n-2] == '0' {
				s = s[:n-2] + s[n-1:]
			}
		}
		return append(b, s...), nil
	case []any:
		if x == nil {
			return append(b, "null"...), nil
		}
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			var err error
			if b, err = enc(b, e, html); err != nil {
				return nil, err
			}
		}
		return append(b, ']'), nil
	}
	return nil, errors.New("json model: unsupported type")
}

func encStr(b []byte, s string, html bool) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			i++
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\n':
				b = append(b, `\n`...)
			case c == '\r':
				b = append(b, `\r`...)
			case c == '\t':
				b = append(b, `\t`...)
			case c == '\b':
				b = append(b, `\b`...)
			case c == '\f':
				b = append(b, `\f`...)
			case c < ' ' || html && (c == '<' || c == '>' || c == '&'):
				b = append(b, '\\', 'u', '0', '0', hexd(c>>4), hexd(c&15))
			default:
				b = append(b, c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b = append(b, `\ufffd`...)
		case r == '\u2028' || r == '\u2029':
			b = append(b, '\\', 'u', '2', '0', '2', hexd(byte(r&15)))
		default:
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return append(b, '"')
}
