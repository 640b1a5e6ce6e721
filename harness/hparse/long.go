package hparse

import (
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/zzverif/zv"
)

// longOrMany is a size of a program and a literal for it: n and up to 2
// arbitrary bytes, or 3 and the same between many bytes full of separators.
func longOrMany(n int) (int, string) {
	s := zv.Str("s", 2, "a;() \"")
	if zv.Bool("many") {
		return n, s
	}
	unit := "ab;(c \"\\)1"
	return 3, strings.Repeat(unit, tq(110, 500)) + s + unit
}

// longProgram is a program of n instructions, n words, or n nested calls, one of them holding lit.
func longProgram(n int, lit string) []node {
	g := node{kind: 'c', s: "g", args: []node{{kind: 's', s: "a;b"}, {kind: 'n', n: "2", v: 2}}}
	s := node{kind: 's', s: lit}
	at := []int{0, n / 2, n - 1}[zv.Choose("at", 3)]
	var is []node
	switch zv.Choose("shape", 3) {
	case 0:
		for i := 0; i < n; i++ {
			is = append(is, g)
		}
		is[at] = node{kind: 'c', s: "f", args: []node{s}}
	case 1:
		c := node{kind: 'c', s: "f"}
		for i := 0; i < n; i++ {
			c.args = append(c.args, node{kind: 'n', n: "1", v: 1})
		}
		c.args[at] = s
		is = append(is, c)
	case 2:
		c := s
		for i := 0; i < n; i++ {
			c = node{kind: 'c', s: "g", args: []node{c}}
			if i == at {
				c.args = append(c.args, s)
			}
		}
		is = append(is, c)
	}
	return is
}

func values(is []node) (out []edlisp.Value) {
	for _, i := range is {
		out = append(out, i.value())
	}
	return
}

// Bounds: scripts of 150 (thorough 1100) instructions, words or nested calls, or 10 separated by long runs of blanks or empty instructions, with a literal of up to 2 bytes of `a;() "` at the first, middle or last place, or of 3 with a literal of 1100 (thorough 5000) bytes of separators.
func P16_long() {
	sep, n := []string{"\n", ";"}[zv.Choose("sep", 2)], tq(150, 1100)
	if zv.Bool("blanks") {
		sep, n = sep+[]string{strings.Repeat("\n", 100), strings.Repeat(" ", 300), strings.Repeat("; \t", 70)}[zv.Choose("blank", 3)], 10
	}
	is := longProgram(longOrMany(n))
	script := ""
	for i, n := range is {
		if i > 0 {
			script += sep
		}
		script += n.shell()
	}
	prog, err := parser.ParseString(script)
	zv.Assert(err == nil, "a long script parses")
	zv.Assert(sameAll(prog, values(is)), "every word of a long script is received")
	zv.Cover("long")
}

// Bounds: programs of 100 (thorough 300) instructions, arguments or nested calls with a literal of up to 2 bytes of `a;() "`, or of 3 with a literal of 1100 (thorough 5000) bytes, in every syntax.
func P17_long() {
	x := render(longProgram(longOrMany(tq(100, 300))))
	p1, e1 := parser.ParseString(x.shell)
	p2, e2 := parser.ParseString(x.sexp)
	p3, e3 := parser.ParseJSONString(x.json)
	zv.Assert(e1 == nil && e2 == nil && e3 == nil, "a long program parses in every syntax")
	zv.Assert(sameAll(p1, x.prog), "the shell syntax denotes the program")
	zv.Assert(sameAll(p2, x.prog), "the s-expression syntax denotes the program")
	zv.Assert(sameAll(p3, x.prog), "the JSON syntax denotes the program")
	zv.Cover("long")
}

// Bounds: programs of 100 (thorough 300) instructions, arguments or nested calls with a string of up to 2 bytes of `a;() "`, or of 3 with a string of 1100 (thorough 5000) bytes, written and read in every format.
func P18_long() {
	prog := values(longProgram(longOrMany(tq(100, 300))))
	f := []writer.Format{writer.FormatSExp, writer.FormatShell, writer.FormatJSON}[zv.Choose("format", 3)]
	out, err := write(f, prog)
	var back []edlisp.Value
	if f == writer.FormatShell {
		for _, v := range prog {
			for _, e := range v.(*edlisp.List).Elements {
				if e.Kind() == edlisp.TheListKind {
					zv.Assert(err != nil, "nested lists cannot be written as shell lines")
					zv.Cover("nested")
					return
				}
			}
		}
	}
	zv.Assert(err == nil, "a long program can be written")
	if f == writer.FormatJSON {
		back, err = parser.ParseJSONReader(strings.NewReader(out))
	} else {
		back, err = parser.ParseString(out)
	}
	zv.Assert(err == nil && sameAll(back, prog), "a long program survives writing and parsing")
	zv.Cover("back")
}

// Bounds: 150 (thorough 1100) good instructions with a malformed one of 8 at the first, middle or last place, shell lines, one s-expression line, or JSON; text of up to 2 bytes.
func P19_long() {
	n := tq(150, 1100)
	bad := zv.Choose("bad", 8)
	at := []int{0, n / 2, n - 1}[zv.Choose("at", 3)]
	format := []string{"shell", "sexp", "json"}[zv.Choose("format", 3)]
	good, sep, pre, post := `insert "x"`, "\n", "", ""
	piece := []string{`f "`, `(f`, `f )`, `(f "a"`, `f "\q"`, `"\`, `(insert "y") )`, `insert "y" (`}[bad]
	switch format {
	case "sexp":
		good, sep = `(insert "x")`, " "
	case "json":
		good, sep, pre, post = `["insert","x"]`, ",", "[", "]"
		piece = []string{`["insert","y"`, `["insert",true]`, `1`, `"insert"`, `["insert",{}]`, `["insert",["f",null]]`, `["insert" "y"]`, ``}[bad]
	}
	script := pre
	for i := 0; i < n; i++ {
		if i > 0 {
			script += sep
		}
		if i == at {
			script += piece
		} else {
			script += good
		}
	}
	text := zv.Str("text", 2, "ab")
	out, err := texted.ExecuteScriptWithFormat(text, script+post, format)
	zv.Assert(err != nil && out == "", "a malformed instruction anywhere in a long script makes it an error")
	zv.Cover("long")
}

// Bounds: every word of up to 4 (thorough 5) bytes of "012.e-" that is a JSON number, as an argument in every syntax.
func P17_number_words() {
	w := zv.ConcreteStr(zv.Str("w", tq(4, 5), "012.e-"))
	p3, e3 := parser.ParseJSONString(`[["f",` + w + `]]`)
	if e3 != nil || w == "" || len(p3[0].(*edlisp.List).Elements) != 2 {
		return
	}
	p1, e1 := parser.ParseString("f " + w)
	p2, e2 := parser.ParseString("(f " + w + ")")
	zv.Assert(e1 == nil && e2 == nil && sameAll(p1, p3) && sameAll(p2, p3), "a number denotes the same value in every syntax")
	zv.Assert(p3[0].(*edlisp.List).Elements[1].Kind() == edlisp.TheNumberKind, "a number is a number")
	zv.Cover("number")
}
