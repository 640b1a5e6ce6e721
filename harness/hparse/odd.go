package hparse

import (
	"strconv"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/zzverif/odd"
	"github.com/dhamidi/texted/zzverif/zv"
)

// rawQuote writes valid UTF-8 as a Go string literal with only the escapes it must have.
func rawQuote(s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	s = strings.ReplaceAll(s, `"`, `\"`)
	s = strings.ReplaceAll(s, "\n", `\n`)
	return `"` + strings.ReplaceAll(s, "\r", `\r`) + `"`
}

// anyQuote writes s as a literal of shell or s-expression lines in one of 4 ways.
func anyQuote(s string) string {
	switch k := zv.Choose("spelling", 4); k {
	case 0:
		return quote(s)
	case 1:
		return hexQuote(s)
	case 2:
		return strconv.Quote(s)
	}
	zv.Assume(odd.Valid(s))
	return rawQuote(s)
}

// anyJSON writes s as a JSON string in one of 3 ways.
func anyJSON(s string) string {
	switch zv.Choose("spelling", 3) {
	case 0:
		return jsonUTF8(s)
	case 1:
		out := `"`
		for _, r := range s {
			if r > 0xffff {
				r -= 0x10000
				out += `\u` + hex4(0xd800+r>>10) + `\u` + hex4(0xdc00+r&0x3ff)
			} else {
				out += `\u` + hex4(r)
			}
		}
		return out + `"`
	}
	s = jsonUTF8(s)
	for _, x := range [][2]string{{`\u0008`, `\b`}, {`\u0009`, `\t`}, {`\u000a`, `\n`}, {`\u000c`, `\f`}, {`\u000d`, `\r`}, {`/`, `\/`}} {
		s = strings.ReplaceAll(s, x[0], x[1])
	}
	return s
}

func hex4(r rune) string {
	return string([]byte{hexd(byte(r >> 12)), hexd(byte(r >> 8 & 15)), hexd(byte(r >> 4 & 15)), hexd(byte(r & 15))})
}

// Bounds: 200 strings of odd content in 4 spellings at 8 places in shell and s-expression lines.
func P16_odd() {
	as := arounds()
	a := as[zv.Choose("place", len(as))]
	s := odd.Str("s")
	lit := anyQuote(s)
	if a.pre[len(a.pre)-1] != ' ' {
		lit = " " + lit
	}
	prog, err := parser.ParseString(a.pre + lit + a.post)
	zv.Assert(err == nil, "a script with a quoted literal parses")
	zv.Assert(sameAll(prog, a.wrap(str(s))), "the literal is received byte for byte and nothing else changes")
	zv.Cover("parsed")
}

// Bounds: 200 strings of odd content (valid UTF-8 in JSON), alone, twice, with another or in a nested call, in 4 spellings in shell and s-expression and 3 in JSON; parsed, and inserted into an empty text.
func P17_odd() {
	s := odd.Str("s")
	syntax := zv.Choose("syntax", 3)
	lit := ""
	if syntax == 2 {
		zv.Assume(odd.Valid(s))
		lit = anyJSON(s)
	} else {
		lit = anyQuote(s)
	}
	name := []string{"shell", "sexp", "json"}[syntax]
	one := func(l string) string {
		return []string{`insert ` + l, `(insert ` + l + `)`, `["insert",` + l + `]`}[syntax]
	}
	var script, text string
	var want []edlisp.Value
	ins := list(sym("insert"), str(s))
	switch zv.Choose("shape", 3) {
	case 0:
		script, want, text = one(lit), []edlisp.Value{ins}, s
	case 1:
		script, want, text = one(lit)+[]string{";", " ", ","}[syntax]+one(lit), []edlisp.Value{ins, ins}, s+s
	case 2:
		c := []string{`(concat "a" ` + lit + `)`, `(concat "a" ` + lit + `)`, `["concat","a",` + lit + `]`}[syntax]
		script, want, text = one(c), []edlisp.Value{list(sym("insert"), list(sym("concat"), str("a"), str(s)))}, "a"+s
	}
	if syntax == 2 {
		script = "[" + script + "]"
	}
	prog, err := parser.ParseFormat(name, script)
	zv.Assert(err == nil && sameAll(prog, want), "each syntax denotes the same program")
	out, err := texted.ExecuteScriptWithFormat("", script, name)
	zv.Assert(err == nil && out == text, "each syntax makes the same edit")
	zv.Cover(name)
}

// Bounds: pairs of strings of odd content as the arguments of one instruction, in two, or (s-expressions and JSON) in a nested call, written by each writer (in JSON valid UTF-8).
func P18_odd() {
	s, t := odd.Pair("s")
	f := []writer.Format{writer.FormatSExp, writer.FormatShell, writer.FormatJSON}[zv.Choose("format", 3)]
	if f == writer.FormatJSON {
		zv.Assume(odd.Valid(s) && odd.Valid(t))
	}
	var prog []edlisp.Value
	switch zv.Choose("shape", 3) {
	case 0:
		prog = []edlisp.Value{list(sym("f"), str(s), num(1), str(t))}
	case 1:
		prog = []edlisp.Value{list(sym("f"), str(s)), list(sym("f")), list(sym("g"), str(t))}
	case 2:
		zv.Assume(f != writer.FormatShell)
		prog = []edlisp.Value{list(sym("f"), list(sym("g"), str(s)), str(t))}
	}
	out, err := write(f, prog)
	zv.Assert(err == nil, "the program can be written")
	var back []edlisp.Value
	if f == writer.FormatJSON {
		back, err = parser.ParseJSONReader(strings.NewReader(out))
		zv.Cover("json")
	} else {
		back, err = parser.ParseString(out)
	}
	zv.Assert(err == nil && sameAll(back, prog), "a string of any bytes survives writing and parsing")
	zv.Cover("back")
}

// Bounds: 200 strings of odd content after an opening quote, after a complete JSON array or JSON line, between the elements of one, or before a script.
func P19_odd() {
	s := odd.Str("s")
	tail := []string{"", "\ng", ";g"}[zv.Choose("tail", 3)]
	blankOnly := strings.Trim(s, " \t\r\n") == ""
	switch zv.Choose("case", 4) {
	case 0:
		zv.Assume(!strings.ContainsAny(s, "\"\\"))
		_, err := parser.ParseString(`f "` + s + tail)
		zv.Assert(err != nil, "an unterminated string is an error")
		_, err = texted.ExecuteScript("text", `insert "a"`+"\n"+`insert "`+s+tail)
		zv.Assert(err != nil, "an unterminated string is an error")
		zv.Cover("string")
	case 1:
		_, err := parser.ParseFormat("json", `[["f"]]`+s)
		zv.Assert((err == nil) == blankOnly, "text after a JSON array is an error")
		zv.Cover("after")
	case 2:
		_, err := parser.ParseFormat("json", s+`[["f"]]`)
		zv.Assert((err == nil) == blankOnly, "text before a JSON array is an error")
		zv.Cover("before")
	case 3:
		zv.Assume(!strings.ContainsAny(s, "\"\\(;\n"))
		_, err := parser.ParseString("f (g " + s + tail)
		_, isList := refClosed(s)
		zv.Assert(isList || err != nil, "an unterminated list is an error")
		zv.Cover("list")
	}
}

// refClosed reports whether s has a closing parenthesis.
func refClosed(s string) (int, bool) {
	i := strings.IndexByte(s, ')')
	return i, i >= 0
}
