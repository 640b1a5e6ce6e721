package hparse

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/zv"
)

// lit is one or more words and the values they denote.
type around struct {
	pre, post string
	before    []edlisp.Value                      // instructions before
	wrap      func(v edlisp.Value) []edlisp.Value // the instructions containing the literal
}

// arounds are the places a literal can stand at.
func arounds() []around {
	one := func(f func(v edlisp.Value) edlisp.Value) func(v edlisp.Value) []edlisp.Value {
		return func(v edlisp.Value) []edlisp.Value { return []edlisp.Value{f(v)} }
	}
	f := sym("f")
	g := sym("g")
	return []around{
		{"f ", "", nil, one(func(v edlisp.Value) edlisp.Value { return list(f, v) })},
		{"f ", " 1;g", nil, func(v edlisp.Value) []edlisp.Value { return []edlisp.Value{list(f, v, num(1)), list(g)} }},
		{"g; \tf", "\n", nil, func(v edlisp.Value) []edlisp.Value { return []edlisp.Value{list(g), list(sym("f"), v)} }},
		{"(f ", ")", nil, one(func(v edlisp.Value) edlisp.Value { return list(f, v) })},
		{"(f (g", " 2) \"x\")", nil, one(func(v edlisp.Value) edlisp.Value { return list(f, list(g, v, num(2)), str("x")) })},
		{"f (g \"\\\"\" ", ")", nil, one(func(v edlisp.Value) edlisp.Value { return list(f, list(g, str(`"`), v)) })},
		{"\n\n(f)(g ", ") f", nil, func(v edlisp.Value) []edlisp.Value {
			return []edlisp.Value{list(f), list(g, v), list(f)}
		}},
		{"f \"a;b\" ", "\r\n;;g", nil, func(v edlisp.Value) []edlisp.Value {
			return []edlisp.Value{list(f, str("a;b"), v), list(g)}
		}},
	}
}

// Bounds: every string of up to 3 (thorough 5) bytes of "a ;()\"\\#" and every string of up to 2 (thorough 3) arbitrary bytes (written with \x escapes), at 8 places in shell and
// s-expression lines.
func P16_literal_anywhere() {
	as := arounds()
	a := as[zv.Choose("place", len(as))]
	var s, lit string
	if zv.Bool("raw") {
		s = zv.Str("s", tq(3, 5), "a ;()\"\\#")
		lit = quote(s)
	} else {
		s = zv.Str("b", tq(2, 3), zv.Any)
		lit = hexQuote(s)
	}
	if a.pre[len(a.pre)-1] != ' ' {
		lit = " " + lit
	}
	prog, err := parser.ParseString(a.pre + lit + a.post)
	zv.Assert(err == nil, "a script with a quoted literal parses")
	zv.Assert(sameAll(prog, a.wrap(str(s))), "the literal is received byte for byte and nothing else changes")
	zv.Cover("parsed")
}

// unescape is the reference meaning of a literal body over the alphabet below:
// Go's escapes. ok is false when the body is malformed; end is the position
// after the closing quote or -1.
func unescape(s string) (v string, end int, ok bool) {
	ok = true
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' {
			return v, i + 1, ok
		}
		if c != '\\' {
			v += string([]byte{c})
			i++
			continue
		}
		if i++; i == len(s) {
			return v, -1, false
		}
		switch s[i] {
		case 'n':
			v += "\n"
		case 't':
			v += "\t"
		case '\\', '"':
			v += string([]byte{s[i]})
		case 'x':
			n, k := 0, 0
			for k = 1; k <= 2 && i+k < len(s) && (s[i+k] == '4' || s[i+k] == 'a'); k++ {
				d := int(s[i+k] - '0')
				if s[i+k] == 'a' {
					d = 10
				}
				n = n*16 + d
			}
			if k == 3 {
				v += string([]byte{byte(n)})
				i += 2
			} else {
				ok = false
			}
		case 'a':
			v += "\a"
		default:
			ok = false
		}
		i++
	}
	return v, -1, false
}

// Bounds: every literal body of up to 4 (thorough 6) bytes of "a4ntx\\\" ;(" between double quotes.
func P16_escapes() {
	body := zv.Str("body", tq(4, 6), "a4ntx\\\" ;(")
	v, end, ok := unescape(body + `"`)
	zv.Assume(end == len(body)+1 || end < 0)
	prog, err := parser.ParseString(`f "` + body + `"`)
	if end < 0 {
		zv.Assert(err != nil, "an unterminated literal is an error")
		zv.Cover("unterminated")
		return
	}
	if !ok {
		zv.Assert(err != nil, "an invalid escape is an error")
		zv.Cover("invalid")
		return
	}
	zv.Assert(err == nil, "a well-formed literal is accepted")
	zv.Assert(sameAll(prog, []edlisp.Value{list(sym("f"), str(v))}), "the value is exactly the Go-unquoted literal")
	zv.Cover("valid")
}

// anyScript makes a script over one of several alphabets; n is the length over the largest one.
func anyScript(n int) string {
	switch zv.Choose("alphabet", 4) {
	case 0:
		return zv.Str("s", n-1, "a; \t\r\n\"")
	case 1:
		return zv.Str("s", n-1, "a; \\\"\n(")
	case 2:
		s, t := zv.Str("s", n, "ae; \""), ""
		for i := 0; i < len(s); i++ {
			if s[i] == 'e' {
				t += "é"
			} else {
				t += s[i : i+1]
			}
		}
		return t
	}
	return zv.Str("s", n, "a1 ;()\"\n")
}

// Bounds: every script of up to 5 (thorough 6) bytes of "a1 ;()\"\n" or characters of "aé; \"" and up to 4 (5) of "a; \t\r\n\"" or "a; \\\"\n(" that the reference reader accepts.
func P16_separators() {
	s := anyScript(tq(5, 6))
	want := refParse(s)
	zv.Assume(!want.malformed && !want.weird)
	prog, err := parser.ParseString(s)
	zv.Assert(err == nil, "a well-formed script is accepted")
	zv.Assert(sameAll(prog, want.prog), "the program is exactly the instructions and words of the script")
	zv.Cover("accepted")
}
