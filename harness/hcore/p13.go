package hcore

import (
	"unicode/utf8"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

func upASCII(c byte) byte {
	if 'a' <= c && c <= 'z' {
		return c - 32
	}
	return c
}

func lowASCII(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}

func mapASCII(s string, f func(byte) byte) string {
	out := make([]byte, len(s))
	for i := range out {
		out[i] = f(s[i])
	}
	return string(out)
}

// strCall calls a string function on a fresh buffer with arbitrary point and mark and checks that the buffer is untouched.
func strCall(name string, args ...edlisp.Value) (edlisp.Value, error) {
	b := edlisp.NewBuffer("xé")
	do(b, "search-forward", str("x"))
	b.SetPoint(zv.IntRange("point", 1, 4))
	b.SetMark(zv.IntRange("mark", 1, 4))
	before := snapFull(b)
	v, err := do(b, name, args...)
	zv.Assert(snapFull(b) == before, "string functions never touch the buffer: "+name)
	return v, err
}

// Bounds: strings of up to 6 (thorough 10) arbitrary bytes.
func P13_length() {
	s := longStr("s", tq(6, 10), zv.Any)
	v, err := strCall("length", str(s))
	zv.Assert(err == nil && isNum(v, len(s)), "length is the byte length")
	zv.Cover("length")
}

// Bounds: 0 to 4 arguments of up to 3 arbitrary bytes.
func P13_concat() {
	want := ""
	var args []edlisp.Value
	for n := zv.Choose("argc", 5); n > 0; n-- {
		s := longStr("s", tq(2, 3), zv.Any)
		want += s
		args = append(args, str(s))
	}
	v, err := strCall("concat", args...)
	zv.Assert(err == nil && isStr(v, want), "concat joins its arguments in order")
	zv.Cover("concat")
}

// Bounds: strings of up to 5 (thorough 7) arbitrary bytes; START and optional END: one any non-NaN float64, the other any integer -2..n+3.
func P13_substring() {
	s := longStr("s", tq(5, 7), zv.Any)
	n := len(s)
	// one of the two positions is any float64, the other any small integer
	float := zv.Choose("float", 2)
	pos := func(l string, k int) (edlisp.Value, int) {
		if k != float {
			i := anyInt(l, -2, n+3)
			return inum(i), clip(i, 1, n+1)
		}
		f := anyFloat(l)
		return num(f), clipFloat(f, 1, n+1)
	}
	sv, lo := pos("start", 0)
	args, hi := []edlisp.Value{str(s), sv}, n+1
	if zv.Bool("has end") {
		var ev edlisp.Value
		ev, hi = pos("end", 1)
		args = append(args, ev)
		zv.Cover("end")
	}
	want := ""
	if lo < hi {
		want = s[lo-1 : hi-1]
		zv.Cover("text")
	}
	v, err := strCall("substring", args...)
	zv.Assert(err == nil, "substring succeeds")
	zv.Assert(isStr(v, want), "substring is the clipped half-open slice")
}

// Bounds: strings of up to 5 (thorough 8) ASCII bytes.
func P13_ascii_case() {
	s := longStr("s", tq(5, 8), zv.ASCII)
	up, err := strCall("upcase", str(s))
	zv.Assert(err == nil && isStr(up, mapASCII(s, upASCII)), "upcase maps letters and nothing else")
	low, err := strCall("downcase", str(s))
	zv.Assert(err == nil && isStr(low, mapASCII(s, lowASCII)), "downcase maps letters and nothing else")
	ul, err := strCall("downcase", up)
	zv.Assert(err == nil && edlisp.Equal(ul, low), "downcase of upcase equals downcase")
	want := mapASCII(s, lowASCII)
	if len(s) > 0 {
		want = string([]byte{upASCII(s[0])}) + want[1:]
	}
	cp, err := strCall("capitalize", str(s))
	zv.Assert(err == nil && isStr(cp, want), "capitalize upcases the first character and downcases the rest")
	zv.Cover("case")
}

// latinPairs are letters outside ASCII with the other case (equal where there is none).
var latinPairs = []struct{ low, up string }{
	{"é", "É"}, {"ÿ", "Ÿ"}, {"µ", "Μ"}, {"ß", "ß"}, {"÷", "÷"}, {"ж", "Ж"}, {"ǆ", "Ǆ"}, {"ⱥ", "Ⱥ"}, {"中", "中"}, {"𐐨", "𐐀"}, {"ı", "I"}, {"ſ", "S"},
}

// Bounds: one of 12 non-ASCII letters (2, 3 and 4 bytes, with and without case, changing length) between up to 2 symbolic ASCII bytes.
func P13_unicode_case() {
	pre, post := zv.Str("pre", 2, zv.ASCII), zv.Str("post", 2, zv.ASCII)
	l := latinPairs[zv.Choose("letter", len(latinPairs))]
	s := pre + l.low + post
	v, err := strCall("upcase", str(s))
	zv.Assert(err == nil && isStr(v, mapASCII(pre, upASCII)+l.up+mapASCII(post, upASCII)), "upcase maps non-ASCII letters")
	if l.low != "µ" && l.low != "ı" && l.low != "ſ" {
		v, err = strCall("downcase", str(pre+l.up+post))
		zv.Assert(err == nil && isStr(v, mapASCII(pre, lowASCII)+l.low+mapASCII(post, lowASCII)), "downcase maps non-ASCII letters")
	}
	v, err = strCall("capitalize", str(s))
	want := l.up + mapASCII(post, lowASCII)
	if len(pre) > 0 {
		want = string([]byte{upASCII(pre[0])}) + mapASCII(pre[1:], lowASCII) + l.low + mapASCII(post, lowASCII)
	}
	zv.Assert(err == nil && isStr(v, want), "capitalize treats the first character whole")
	zv.Cover("letter")
}

// Bounds: every valid UTF-8 string of up to 3 (thorough 4) bytes.
func P13_case_is_per_character() {
	s := longStr("s", tq(3, 4), zv.Any)
	zv.Assume(validUTF8(s))
	if len(s) == 0 {
		return
	}
	n := seqLen(s, 0)
	first, rest := s[:n], s[n:]
	name := []string{"upcase", "downcase"}[zv.Choose("fn", 2)]
	whole, err := strCall(name, str(s))
	zv.Assert(err == nil, "case conversion succeeds")
	a, _ := strCall(name, str(first))
	r, _ := strCall(name, str(rest))
	x, y, z := whole.(*edlisp.String).Value, a.(*edlisp.String).Value, r.(*edlisp.String).Value
	zv.Assert(x == y+z, "case conversion maps every character by itself")
	zv.Assert(utf8.RuneCountInString(y) == 1, "one character becomes one character")
	if name == "upcase" {
		l, _ := strCall("downcase", str(rest))
		c, err := strCall("capitalize", str(s))
		zv.Assert(err == nil && isStr(c, y+l.(*edlisp.String).Value), "capitalize is upcase of the first character and downcase of the rest")
	}
	zv.Cover("character")
}
