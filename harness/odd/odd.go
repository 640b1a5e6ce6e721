// Package odd lists strings that code is likely to treat specially.
package odd

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted/zzverif/zv"
)

// Strings are blanks and line ends, cases, escapes, templates, quotes, markup, syntax, constants, numbers,
// characters of every UTF-8 length, invalid UTF-8, control characters, paths, regexps, options and long ones.
var Strings = []string{"", " ", "  ", "\t", "\n", "\n\n", "\r\n", "\r", "a\r\nb", "a\n", "\na", " a", "a ", "a\nb\n", "\n\r", "a\tb", "A", "a", "AB", "Ab", "aB", "ab", "ABC DEF", "Abc Def", "aBC dEF", "the The THE",
	"\\", "\\\\", "\\n", "\\&", "\\1", "\\0", "&", "$1", "${1}", "$$", "$&", "$0", "$name", "%s", "%d", "%", "%%", "%!", "{{.}}", "{}", "#{a}", "`a`", "'a'", "\"a\"", "\"", "'", "\"\"", "\\\"", "a\\", "\\x41", "\\u0041",
	"<a>", "&lt;", "&amp;", "<![CDATA[x]]>", "]]>", "<!-- a -->", "<", ">", "(a)", "(", ")", "()", ";", ";;", "a;b", "; ", "#a", "//a", "/*a*/", "-- a", "t", "nil", "NIL", "T", "true", "null", "0", "1", "-1", "1.0", "1e3", "01", "-0", "NaN", "inf", "10", "9", "0x10",
	"é", "É", "ä", "Ö", "ß", "ẞ", "ǆ", "ǅ", "ı", "İ", "\u212a", "ſ", "σς", "Σ", "日本", "日本 語", "e\u0301", "\ufeffa", "\ufeff", "\u200b", "\u00a0", "\u2028", "\u0085", "😀", "a😀b", "\x00", "a\x00b", "\x00\x00", "\x7f", "\x1b[0m", "\x1a", "\x04",
	"\x80", "\xff", "a\xffb", "\xc3", "\xe2\x82", "\xc0\x80", "\xed\xa0\x80", "\xf0\x9f\x98", "é\xff", "\ufffd", "..", ".", "./a", "../a", "~", "~/a", "*", "**", "?", "[a]", "[", "]", "a+", "a|b", "^a", "a$", ".*", "\\b", "(?i)a", "\\d", "\\Q", "a{2}", "^", "$", "a*", "x*?",
	",", "a,b", "=", "a=b", "a:b", "@a", "!", "--a", "-a", "+a", "-", "--", "_", "a_b", "a-b", "a.b", "1/2", "\u2018a\u2019", "...", "…", "\v", "\f", "\b", "\a", "a\vb", "|", "a b c", "a  b", "aa", "aaa", "abab", "aXbXc", "<<<<<<<", "=======", "begin end", "text", "error", "TODO",
	strings.Repeat("a", 70), strings.Repeat("ab ", 30), strings.Repeat("é", 40), strings.Repeat("\n", 20), strings.Repeat("x", 300)}

// Str forks over them.
func Str(label string) string { return Strings[zv.Choose(label, len(Strings))] }

// Few are some of them.
var Few = []string{"", "a", "AB", " a ", "\n", "\r\n", "$1", "\\&", "\"", "é", "\xff", "(", "a\nb\n"}

// Pair forks over pairs of one of the strings and one of the few, in either order (quick), or of two of them.
func Pair(label string) (string, string) {
	if zv.Tier() > 0 {
		return Str(label), Str(label + "2")
	}
	a, b := Str(label), Few[zv.Choose(label+"2", len(Few))]
	if zv.Choose(label+" swapped", 2) == 1 {
		a, b = b, a
	}
	return a, b
}

// Near are s and strings that are nearly s.
func Near(s string) []string {
	half := s[:len(s)/2]
	rest := ""
	if len(s) > 0 {
		rest = s[1:]
	}
	rev := []byte(s)
	for i := range rev {
		rev[i] = s[len(s)-1-i]
	}
	q := strconv.Quote(s)
	return []string{s, s + s, s + "\n", "\n" + s, s + " ", " " + s, strings.ToUpper(s), strings.ToLower(s), strings.ToTitle(s), strings.TrimSpace(s), half, rest, string(rev), q, q[1 : len(q)-1], strings.ReplaceAll(s, "\r\n", "\n"), strings.ReplaceAll(s, "\n", "\r\n"), strings.ToValidUTF8(s, "\ufffd"), s + "\x00", "x" + s + "y", ""}
}

// NearOne forks over them.
func NearOne(label, s string) string {
	n := Near(s)
	return n[zv.Choose(label, len(n))]
}

// Valid reports valid UTF-8.
func Valid(s string) bool { return utf8.ValidString(s) }
