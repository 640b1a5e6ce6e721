// Package hparse holds the harnesses for the script parsers and writers.
package hparse

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// tq picks a bound by tier.
func tq(quick, thorough int) int {
	if zv.Tier() > 0 {
		return thorough
	}
	return quick
}

func sym(s string) edlisp.Value           { return edlisp.NewSymbol(s) }
func str(s string) edlisp.Value           { return edlisp.NewString(s) }
func num(n float64) edlisp.Value          { return edlisp.NewNumber(n) }
func list(v ...edlisp.Value) edlisp.Value { return edlisp.NewList(v...) }

// same is structural identity; numbers are identical when they have the same
// value or are both NaN.
func same(a, b edlisp.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *edlisp.String:
		y, ok := b.(*edlisp.String)
		return ok && x.Value == y.Value
	case *edlisp.Number:
		y, ok := b.(*edlisp.Number)
		return ok && (x.Value == y.Value || x.Value != x.Value && y.Value != y.Value)
	case *edlisp.Symbol:
		y, ok := b.(*edlisp.Symbol)
		return ok && x.Name == y.Name
	case *edlisp.List:
		y, ok := b.(*edlisp.List)
		return ok && sameAll(x.Elements, y.Elements)
	}
	return false
}

func sameAll(a, b []edlisp.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func hexd(n byte) byte {
	c := '0' + n
	if n > 9 {
		c = 'a' + n - 10
	}
	return c
}

// quote writes s as a Go string literal, escaping quotes, backslashes and
// everything that is not printable ASCII.
func quote(s string) string {
	out := `"`
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out += `\` + string([]byte{c})
		case c < ' ' || c > '~':
			out += `\x` + string([]byte{hexd(c >> 4), hexd(c & 15)})
		default:
			out += string([]byte{c})
		}
	}
	return out + `"`
}

// hexQuote writes every byte of s as a \x escape.
func hexQuote(s string) string {
	out := `"`
	for i := 0; i < len(s); i++ {
		out += `\x` + string([]byte{hexd(s[i] >> 4), hexd(s[i] & 15)})
	}
	return out + `"`
}

// jsonQuote writes ASCII text as a JSON string.
func jsonQuote(s string) string {
	out := `"`
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out += `\` + string([]byte{c})
		case c < ' ' || c > '~':
			out += `\u00` + string([]byte{hexd(c >> 4), hexd(c & 15)})
		default:
			out += string([]byte{c})
		}
	}
	return out + `"`
}
