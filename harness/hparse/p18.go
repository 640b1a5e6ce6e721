package hparse

import (
	"math"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/zzverif/zv"
)

var floats = []float64{-2, 0.1, 1e21, 1 << 53, math.Copysign(0, -1), 1e-7, math.MaxFloat64, 5e-324, 123456789012, -(1 << 63), 1 << 63, 1e6, 1e20, 1234567.5, 1 << 62, 4294967296.5, 100000000}

// value makes an arbitrary argument value.
func value(label string, depth, slen, width int, alphabet string) edlisp.Value {
	k := 3
	if depth > 0 {
		k = 4
	}
	switch zv.Choose(label, k) {
	case 0:
		return str(zv.Str(label+"s", slen, alphabet))
	case 1:
		return num(floats[zv.Choose(label+"n", tq(4, len(floats)))])
	case 2:
		return sym(word1(label + "y"))
	}
	return instruction(label, depth-1, slen, width, alphabet, true)
}

// word1 is an arbitrary word that is not a number.
func word1(label string) string {
	return "a" + zv.Str(label, 1, "a-?1*")
}

func instruction(label string, depth, slen, width int, alphabet string, empty bool) edlisp.Value {
	if empty && zv.Bool(label+"empty") {
		return list()
	}
	els := []edlisp.Value{sym(word1(label + "f"))}
	for i := zv.Choose(label+"k", width+1); i > 0; i-- {
		els = append(els, value(label+".", depth, slen, max(1, width-1), alphabet))
	}
	return list(els...)
}

const tricky = "a;()[]\"\\ \n\r\t\x00\x7f<&%,"

func program(depth int, empty bool) []edlisp.Value {
	switch zv.Choose("shape", 4) {
	case 0:
		return nil
	case 1:
		return []edlisp.Value{instruction("a", depth, 1, 1, "a\" \n", empty), instruction("b", 0, 1, 1, "a;\\)", empty)}
	case 2:
		return []edlisp.Value{instruction("a", depth, 1, 2, "a\"\n;", empty)}
	}
	return []edlisp.Value{list(sym("f"), str(zv.Str("s", tq(2, 4), tricky)))}
}

func write(f writer.Format, prog []edlisp.Value) (string, error) {
	w, err := writer.NewWriter(f)
	zv.Assert(err == nil, "the format is supported")
	var sb strings.Builder
	err = w.Write(&sb, prog)
	return sb.String(), err
}

// Bounds: programs of up to 2 instructions with up to 2 arguments, lists nested to depth 2, empty lists included; words of up to 2 bytes, strings of up to 2 (thorough 4) bytes of 19 tricky ASCII
// bytes, 4 (17) numbers; written by the s-expression writer.
func P18_sexp() {
	prog := program(2, true)
	out, err := write(writer.FormatSExp, prog)
	zv.Assert(err == nil, "every program can be written as s-expressions")
	back, err := parser.ParseString(out)
	zv.Assert(err == nil, "the s-expression writer's output parses")
	zv.Assert(sameAll(back, prog), "the s-expression writer's output parses back to an equal program")
	zv.Cover("back")
}

// Bounds: as P18_sexp without nested and empty lists; written by the shell writer.
func P18_shell() {
	prog := program(0, false)
	out, err := write(writer.FormatShell, prog)
	zv.Assert(err == nil, "every flat program can be written as shell lines")
	back, err := parser.ParseFormat("shell", out)
	zv.Assert(err == nil, "the shell writer's output parses")
	zv.Assert(sameAll(back, prog), "the shell writer's output parses back to an equal program")
	zv.Cover("back")
}

// jsonOf is the program JSON can express: symbols in argument position are strings.
func jsonOf(v edlisp.Value, first bool) edlisp.Value {
	switch x := v.(type) {
	case *edlisp.Symbol:
		if !first {
			return str(x.Name)
		}
	case *edlisp.List:
		var els []edlisp.Value
		for i, e := range x.Elements {
			els = append(els, jsonOf(e, i == 0))
		}
		return list(els...)
	}
	return v
}

// Bounds: as P18_sexp; written by the JSON writer and read as JSON lines, or element by element into an array.
func P18_json() {
	prog := program(1, true)
	var want []edlisp.Value
	for _, v := range prog {
		want = append(want, jsonOf(v, true))
	}
	out, err := write(writer.FormatJSON, prog)
	zv.Assert(err == nil, "every program of strings, symbols and finite numbers can be written as JSON")
	back, err := parser.ParseJSONReader(strings.NewReader(out))
	zv.Assert(err == nil, "the JSON writer's output parses")
	zv.Assert(sameAll(back, want), "the JSON writer's output parses back to an equal program")
	if len(prog) > 0 {
		arr := "[" + strings.Join(strings.Split(strings.TrimSpace(out), "\n"), ",") + "]"
		back, err = parser.ParseJSONString(arr)
		zv.Assert(err == nil && sameAll(back, want), "as a JSON array it is the same program")
	}
	zv.Cover("back")
}

// Bounds: one instruction with one string argument of up to 1 (thorough 2) arbitrary bytes or 2 bytes from 0xc2 and 0x80 on, valid UTF-8 for JSON (one character of up to 3 bytes), in every format.
func P18_any_bytes() {
	f := []writer.Format{writer.FormatSExp, writer.FormatShell, writer.FormatJSON}[zv.Choose("format", 3)]
	var s string
	if f == writer.FormatJSON {
		if s = zv.StrN("s", zv.Choose("n", 3)+1, zv.Any); len(s) == 1 {
			zv.Assume(s[0] < 128)
		} else if len(s) == 2 {
			zv.Assume(s[0] >= 0xc2 && s[0] < 0xe0 && s[1]&0xc0 == 0x80)
		} else {
			zv.Assume(s[0] > 0xe0 && s[0] < 0xf0 && s[0] != 0xed && s[1]&0xc0 == 0x80 && s[2]&0xc0 == 0x80)
		}
	} else {
		s = zv.Str("b", tq(1, 2), zv.Any)
		if zv.Bool("multi-byte") {
			s = zv.StrN("m", 2, zv.Any)
			zv.Assume(s[0] >= 0xc2 && s[1] >= 0x80)
		}
	}
	prog := []edlisp.Value{list(sym("f"), str(s))}
	out, err := write(f, prog)
	zv.Assert(err == nil, "the program can be written")
	var back []edlisp.Value
	if f == writer.FormatJSON {
		back, err = parser.ParseJSONReader(strings.NewReader(out))
	} else {
		back, err = parser.ParseString(out)
	}
	zv.Assert(err == nil && sameAll(back, prog), "a string of any bytes survives writing and parsing")
	zv.Cover("back")
}

// Bounds: every number of a list of 17 and the integers -3..12, in every format.
func P18_numbers() {
	f := []writer.Format{writer.FormatSExp, writer.FormatShell, writer.FormatJSON}[zv.Choose("format", 3)]
	var n float64
	if k := zv.Choose("kind", len(floats)+1); k > 0 {
		n = floats[k-1]
	} else {
		n = float64(zv.Choose("n", 16) - 3)
	}
	prog := []edlisp.Value{list(sym("f"), num(n))}
	out, err := write(f, prog)
	zv.Assert(err == nil, "a finite number can be written")
	var back []edlisp.Value
	if f == writer.FormatJSON {
		back, err = parser.ParseJSONReader(strings.NewReader(out))
	} else {
		back, err = parser.ParseString(out)
	}
	zv.Assert(err == nil && sameAll(back, prog), "a number survives writing and parsing exactly")
	zv.Cover("back")
}

// Bounds: non-finite numbers in JSON at two depths; lists nested in a shell instruction at two positions; top-level atoms in shell; an unknown format of up to 3 letters.
func P18_unrepresentable() {
	s := zv.Str("s", 1, "a\"")
	switch zv.Choose("case", 4) {
	case 0:
		n := num([]float64{math.Inf(1), math.Inf(-1), math.NaN()}[zv.Choose("n", 3)])
		i := list(sym("f"), str(s), n)
		if zv.Bool("nested") {
			i = list(sym("f"), list(sym("g"), n), str(s))
		}
		_, err := write(writer.FormatJSON, []edlisp.Value{list(sym("g")), i})
		zv.Assert(err != nil, "a non-finite number cannot be written as JSON")
		zv.Cover("number")
	case 1:
		i := list(sym("f"), str(s), list(sym("g")))
		if zv.Bool("empty") {
			i = list(sym("f"), list(), str(s))
		}
		_, err := write(writer.FormatShell, []edlisp.Value{list(sym("g")), i})
		zv.Assert(err != nil, "nested lists cannot be written as shell lines")
		zv.Cover("nested")
	case 2:
		v := []edlisp.Value{str(s), num(1), sym("a" + s)}[zv.Choose("v", 3)]
		_, err := write(writer.FormatShell, []edlisp.Value{v})
		zv.Assert(err != nil, "a value that is not a list is no shell line")
		zv.Cover("atom")
	case 3:
		name := zv.Str("name", 3, "shel")
		_, err := writer.NewWriter(writer.Format(name))
		zv.Assert(err != nil, "an unknown format is an error")
		zv.Cover("format")
	}
}

// Bounds: one symbol of up to 2 (thorough 3) bytes of "a1 ();\"\n" as the function name, in s-expression and shell form.
func P18_odd_symbols() {
	name := zv.Str("name", tq(2, 3), "a1 ();\"\n")
	prog := []edlisp.Value{list(sym(name), str("x"))}
	f := []writer.Format{writer.FormatSExp, writer.FormatShell}[zv.Choose("format", 2)]
	odd := name == "" || name == "1" || name == "11" || name == "111"
	quotes := false
	for i := 0; i < len(name); i++ {
		switch name[i] {
		case ' ', '(', ')', ';', '\n':
			odd = true
		case '"':
			quotes = true
		}
	}
	out, err := write(f, prog)
	if err != nil {
		zv.Assert(odd || quotes, "a program whose symbols are words can be written")
		return
	}
	back, err := parser.ParseString(out)
	if err == nil && sameAll(back, prog) {
		zv.Cover("word")
		return
	}
	if odd || quotes {
		zv.Known("KF3-symbol-not-a-word")
		zv.Cover("odd")
		return
	}
	zv.Fail("a program whose symbols are words parses back to an equal program")
}
