package hparse

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/zzverif/zv"
)

// oddWords look like numbers or nearly.
var oddWords = []string{"010", "0x10", "0b11", "0o17", "1_000", "0x_1", "1e400", "-1e400", "1e-400", "inf", "Inf", "-inf", "+Inf", "infinity", "Infinity", "nan", "NaN", "+nan", "0x1p4", "0x1p-2", "0X1P4", "9007199254740993",
	"18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e", "e1", "-", "+", ".", "..", "1.", ".5", "-.5", "+1", "0x", "0_1", "1__0", "_1", "-0", "--1", "+-1", "1-", "1e+", "1e+2", "1E2", "1e2.5",
	"1.2.3", "00", "-01", "007.5", "08", "1f", "1d", "1u", "1n", "1L", "0.1", "0.30000000000000004", "123456789.123456789", "5e-324", "1.7976931348623157e308", "1.7976931348623159e308", "16777217", "1/2", "1,5", "#1", "1%", "١", "½", "1é",
	"true", "false", "null", "nil", "t", "-a", "a-1", "a1", "1a", "'a", "`a", "[1", "1]", "{", ":a", "$1", "@", "\\", "a\\", "\\n", "a\"b", "日本", "é", "a.b", "a|b", "a&b", "a>b", "<a", "a'b", "\x00",
	"'a'", "'ab'", "`ab`", "[a]", "{a}", "<a>", "a=b", "A=1", ":a:", "#t", "#f", "?a", "#", "//", "--", "---", "%", "~", "!", "^", "*", "&&", "||", ">", ">>", "//a", "/*", "*/", "a,b", ",", "'", "`", "''", "``", "#!", "\ufeff", "\u00a0a", "a\u2003b", "\u2028",
	"\ufeffa", "a\v", "\fb", "\x1a", "\x04", "exit", "quit", "EOF", "__END__", "end", "#if", "...", "a...", "$a", "${a}", "%d", "%s", "*a*", "~a", "^a", "a^", "=", "==", "a:", "a!", "a?", "$", "&", "?", "|", "<", "]", "[", "}", "a$", "a&", "_", "a_", "@a", "$$", "%%", "->", "=>", "a->b", "1:", "a/b", "./a", "../a", "/a", "~/a", "C:", "a.txt", "λ", "😀", "define", "lambda", "let", "if", "progn", "quote", "setq", "while", "and", "or", "not", "do", "begin", "undefined", "None", "True", "NULL", "T", "NIL", "yes", "no", "on", "off"}

// wordValue is what a word denotes: the number strconv.ParseFloat reads in it, or else a symbol.
func wordValue(w string) edlisp.Value {
	if x, err := strconv.ParseFloat(w, 64); err == nil {
		return num(x)
	}
	return sym(w)
}

// Bounds: every word of 1..3 (thorough 4) bytes of "018.eE+-_xpn" at 3 places, and 240 odd words at 8 places of shell and s-expression lines.
func P16_words() {
	as := arounds()
	var w string
	var a around
	if zv.Choose("odd", 2) == 1 {
		w = oddWords[zv.Choose("word", len(oddWords))]
		zv.Assume(w != "a\"b" && !edge(w))
		a = as[zv.Choose("place", len(as))]
	} else {
		w = zv.ConcreteStr(zv.StrN("word", 1+zv.Choose("length", tq(3, 4)), "018.eE+-_xpn"))
		a = as[[]int{0, 4, 6}[zv.Choose("place", 3)]]
	}
	pre := a.pre
	if pre[len(pre)-1] != ' ' {
		pre += " "
	}
	prog, err := parser.ParseString(pre + w + a.post)
	zv.Assert(err == nil, "a script with a word is accepted")
	zv.Assert(sameAll(prog, a.wrap(wordValue(w))), "a word is the number it reads as, or else the symbol of that name")
	zv.Cover("parsed")
}

var jsonNumber = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// Bounds: every word of 1..4 (thorough 5) bytes of "01.e-+" and 240 odd words: those that are JSON numbers denote the same number in the three syntaxes, the others are an error in JSON.
func P17_numbers() {
	var w string
	if zv.Choose("odd", 2) == 1 {
		w = oddWords[zv.Choose("word", len(oddWords))]
		zv.Assume(w != "true" && w != "false" && w != "null" && w != "1,5")
	} else {
		w = zv.ConcreteStr(zv.StrN("word", 1+zv.Choose("length", tq(4, 5)), "01.e-+"))
	}
	p3, e3 := parser.ParseFormat("json", `[["f",`+w+`]]`)
	x, err := strconv.ParseFloat(w, 64)
	if err != nil || !jsonNumber.MatchString(w) {
		zv.Assert(e3 != nil, "what is no JSON number is an error in JSON")
		zv.Cover("error")
		return
	}
	p1, e1 := parser.ParseFormat("shell", "f "+w)
	p2, e2 := parser.ParseFormat("sexp", "(f "+w+")")
	want := []edlisp.Value{list(sym("f"), num(x))}
	zv.Assert(e1 == nil && sameAll(p1, want), "a number in a shell line denotes its value")
	zv.Assert(e2 == nil && sameAll(p2, want), "a number in an s-expression denotes its value")
	zv.Assert(e3 == nil && sameAll(p3, want), "a number in JSON denotes its value")
	zv.Cover("number")
}

// Bounds: lines of 4096, 65536 and 70000 (thorough also 1048577) bytes, short or long ones before and after it: literals, many words, or many instructions, around one of 4 bytes.
func P16_long_lines() {
	n := []int{4096, 65536, 70000, 1048577}[zv.Choose("size", tq(3, 4))]
	c := []string{"a", " ", ";", "("}[zv.Choose("c", 4)]
	line, want := "", []edlisp.Value{}
	switch zv.Choose("kind", 2) {
	case 0:
		s := strings.Repeat("x", n-6) + c
		line, want = `f "`+s+`"`, []edlisp.Value{list(sym("f"), str(s))}
	case 1:
		s := strings.Repeat("x", n/3)
		line, want = `f `+s+` "`+s+`";g `+s+` "`+c+`"`, []edlisp.Value{list(sym("f"), sym(s), str(s)), list(sym("g"), sym(s), str(c))}
	}
	other := []string{"h\n", "", "\n\n"}[zv.Choose("around", 3)]
	if other == "h\n" {
		want = append(append([]edlisp.Value{list(sym("h"))}, want...), list(sym("h")))
	}
	prog, err := parser.ParseString(other + line + "\n" + other)
	zv.Assert(err == nil, "a script with a long line is accepted")
	zv.Assert(sameAll(prog, want), "the program is exactly the instructions and words of the script")
	zv.Cover("long")
}

// anyCommands makes a script with an odd word as the first word of a shell line (alone, first, between or last of several lines or instructions), of an s-expression or of a nested one, followed by up to two words, and its program.
func anyCommands() (s string, want []edlisp.Value) {
	w := oddWords[zv.Choose("word", len(oddWords))]
	zv.Assume(w != "a\"b" && !edge(w))
	line, els := w, []edlisp.Value{wordValue(w)}
	switch zv.Choose("arguments", 3) {
	case 1:
		line, els = line+" x", append(els, sym("x"))
	case 2:
		line, els = line+" \"a  b\" 1", append(els, str("a  b"), num(1))
	}
	c, f, g := list(els...), list(sym("f")), list(sym("g"))
	switch zv.Choose("place", 6) {
	case 0:
		return line, []edlisp.Value{c}
	case 1:
		return "f;" + line + ";g", []edlisp.Value{f, c, g}
	case 2:
		return "f\n " + line + "\r\ng\n", []edlisp.Value{f, c, g}
	case 3:
		return "(" + line + ") g", []edlisp.Value{c, g}
	case 4:
		return "f (" + line + ")", []edlisp.Value{list(sym("f"), c)}
	}
	return "(f) " + line, []edlisp.Value{f, c}
}

// Bounds: 240 odd words as the first word of a shell line (alone, first, between or last of several lines or instructions), of an s-expression or of a nested one, followed by up to two words.
func P16_commands() {
	s, want := anyCommands()
	prog, err := parser.ParseString(s)
	zv.Assert(err == nil, "a script with a word as a command is accepted")
	zv.Assert(sameAll(prog, want), "the program is exactly the instructions and words of the script")
	zv.Cover("parsed")
}

// Bounds: the scripts of P16_commands, as a script and (those of s-expressions) by the value parser; run, they fail at a function that does not exist.
func P19_commands() {
	s, want := anyCommands()
	prog, err := parser.ParseString(s)
	if err == nil {
		zv.Assert(sameAll(flatten(nil, prog), flatten(nil, want)), "every word of the text is part of the program, in order")
		zv.Cover("accepted")
	}
	if vals, err := parser.ParseSexp(s); err == nil && !strings.Contains(s, ";") {
		zv.Assert(sameAll(flatten(nil, vals), flatten(nil, want)), "every word of the text is one of the values, in order")
		zv.Cover("values")
	}
	_, err = texted.ExecuteScript("text", s)
	zv.Assert(err != nil, "a script that calls a function that does not exist fails")
}

// edge reports words that begin or end with other white space than blanks, which may be skipped at the end of a line.
func edge(w string) bool {
	return strings.TrimSpace(w) != w
}

// Bounds: command names of up to 3 (thorough 4) bytes of " a\t1\"(" and 240 odd words as the first string of a JSON array, alone, nested, after another, with one or no argument.
func P17_names() {
	var w string
	if zv.Choose("odd", 2) == 1 {
		w = oddWords[zv.Choose("word", len(oddWords))]
	} else {
		w = zv.Str("name", tq(3, 4), " a\t1\"(")
	}
	els := []edlisp.Value{sym(w)}
	a := "[" + jsonUTF8(w)
	if zv.Choose("arguments", 2) == 1 {
		a, els = a+`, " x "`, append(els, str(" x "))
	}
	a += "]"
	c := list(els...)
	var s string
	want := c
	switch zv.Choose("place", 2) {
	case 0:
		s = a
	case 1:
		s, want = `["f", `+a+`]`, list(sym("f"), c)
	}
	if zv.Choose("reader", 2) == 1 {
		prog, err := parser.ParseJSONReader(strings.NewReader(s + "\n" + a))
		zv.Assert(err == nil && sameAll(prog, []edlisp.Value{want, c}), "the JSON lines denote calls of exactly the named functions")
		zv.Cover("lines")
		return
	}
	prog, err := parser.ParseFormat("json", "["+s+","+a+"]")
	zv.Assert(err == nil && sameAll(prog, []edlisp.Value{want, c}), "the JSON array denotes calls of exactly the named functions")
	zv.Cover("array")
}

// jsonUTF8 writes valid UTF-8 as a JSON string.
func jsonUTF8(s string) string {
	out := `"`
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out += `\` + string([]byte{c})
		case c < ' ':
			out += `\u00` + string([]byte{hexd(c >> 4), hexd(c & 15)})
		default:
			out += string([]byte{c})
		}
	}
	return out + `"`
}

// Bounds: programs of one or two instructions named by strings of up to 2 (thorough 3) bytes of " a\t1\"(" or 240 odd words, with one string argument or another such call as argument, written as JSON.
func P18_json_names() {
	var w string
	if zv.Choose("odd", 2) == 1 {
		w = oddWords[zv.Choose("word", len(oddWords))]
	} else {
		w = zv.Str("name", tq(2, 3), " a\t1\"(")
	}
	c := list(sym(w), str(" x "))
	if zv.Choose("nested", 2) == 1 {
		c = list(sym("f"), c, list(sym(w)))
	}
	prog := []edlisp.Value{c, list(sym(w))}[zv.Choose("from", 2):]
	out, err := write(writer.FormatJSON, prog)
	zv.Assert(err == nil, "every program of strings, symbols and finite numbers can be written as JSON")
	back, err := parser.ParseJSONReader(strings.NewReader(out))
	zv.Assert(err == nil && sameAll(back, prog), "the JSON writer's output parses back to an equal program")
	back, err = parser.ParseJSONString("[" + strings.Join(strings.Split(strings.TrimSpace(out), "\n"), ",") + "]")
	zv.Assert(err == nil && sameAll(back, prog), "as a JSON array it is the same program")
	zv.Cover("back")
}
