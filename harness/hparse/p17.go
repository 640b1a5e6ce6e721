package hparse

import (
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/zv"
)

// node is an abstract instruction argument.
type node struct {
	kind byte // 's' string, 'n' number, 'c' call
	s    string
	n    string // the number as written
	v    float64
	args []node
}

var numbers = []node{{kind: 'n', n: "-2", v: -2}, {kind: 'n', n: "3.5", v: 3.5}, {kind: 'n', n: "1e3", v: 1000}, {kind: 'n', n: "0", v: 0}, {kind: 'n', n: "12", v: 12}}

func anyNode(label string, depth, slen, width int) node {
	k := 2
	if depth > 0 {
		k = 3
	}
	switch zv.Choose(label, k) {
	case 0:
		return node{kind: 's', s: zv.Str(label+"s", slen, "a;()[],\"\\ \n<1")}
	case 1:
		return numbers[zv.Choose(label+"n", tq(3, len(numbers)))]
	}
	return call(label, depth-1, slen, width)
}

// call makes a call with up to width arguments; nested calls have up to width-1.
func call(label string, depth, slen, width int) node {
	names := []string{"insert", "set-mark-command", "f2"}
	c := node{kind: 'c', s: names[zv.Choose(label+"f", tq(1, 3))]}
	for i := zv.Choose(label+"k", width+1); i > 0; i-- {
		c.args = append(c.args, anyNode(label+".", depth, slen, max(1, width-1)))
	}
	return c
}

func (n node) value() edlisp.Value {
	switch n.kind {
	case 's':
		return str(n.s)
	case 'n':
		return num(n.v)
	}
	els := []edlisp.Value{sym(n.s)}
	for _, a := range n.args {
		els = append(els, a.value())
	}
	return list(els...)
}

// style is how s-expressions are written: 0 with single blanks, 1 without those that are not needed, 2 with more of them.
var style int

func (n node) sexp() string {
	switch n.kind {
	case 's':
		return quote(n.s)
	case 'n':
		return n.n
	}
	switch style {
	case 1:
		out := "(" + n.s
		for i, a := range n.args {
			if a.kind == 'c' || i > 0 && n.args[i-1].kind == 'c' {
				out += a.sexp()
			} else {
				out += " " + a.sexp()
			}
		}
		return out + ")"
	case 2:
		out := "( \t" + n.s
		for _, a := range n.args {
			out += "  " + a.sexp()
		}
		return out + " )"
	}
	out := "(" + n.s
	for _, a := range n.args {
		out += " " + a.sexp()
	}
	return out + ")"
}

func (n node) shell() string {
	out := n.s
	for i, a := range n.args {
		switch {
		case style == 1 && (a.kind == 'c' || i > 0 && n.args[i-1].kind == 'c'):
			out += a.sexp()
		case style == 2:
			out += " \t " + a.sexp() + " "
		default:
			out += " " + a.sexp()
		}
	}
	return out
}

func (n node) json() string {
	switch n.kind {
	case 's':
		return jsonQuote(n.s)
	case 'n':
		return n.n
	}
	out := `["` + n.s + `"`
	for _, a := range n.args {
		if style == 2 {
			out += " ,\t"
		} else {
			out += ","
		}
		out += a.json()
	}
	return out + "]"
}

type syntaxes struct {
	shell, sexp, json, jsonl string
	prog                     []edlisp.Value
}

func render(is []node) (x syntaxes) {
	seps := []string{"\n", ";", " ", ""} // between s-expressions
	sep, shsep := "", ""
	if len(is) > 1 {
		k := zv.Choose("sep", len(seps))
		sep, shsep = seps[k], []string{"\n", ";", "\n", " ; "}[k]
	}
	x.json = "["
	for i, n := range is {
		if i > 0 {
			x.shell += shsep
			x.sexp += sep
			x.json += ","
		}
		x.shell += n.shell()
		x.sexp += n.sexp()
		x.json += n.json()
		x.jsonl += n.json() + "\n"
		x.prog = append(x.prog, n.value())
	}
	x.json += "]"
	return
}

// Bounds: strings over `a;()[],"\ \n<1` and 3 (thorough 5) numbers in: two instructions with one argument each, strings of 1 byte, s-expressions separated by newline, semicolon,
// blank or nothing; one
// instruction with up to 2 arguments, one-argument calls nested in them, strings of 1 byte; one instruction with one argument, maybe nested, strings of up to 3 (4) bytes; with single blanks, only the necessary ones, or many.
func P17_same_program() {
	var is []node
	style = zv.Choose("style", 3)
	defer func() { style = 0 }()
	switch zv.Choose("shape", 3) {
	case 0:
		is = append(is, call("a", 0, 1, tq(1, 2)), call("b", 0, 1, 1))
	case 1:
		is = append(is, call("a", 1, 1, 2))
	case 2:
		is = append(is, call("a", 1, tq(3, 4), 1))
	}
	x := render(is)
	p1, e1 := parser.ParseString(x.shell)
	p2, e2 := parser.ParseString(x.sexp)
	p3, e3 := parser.ParseJSONString(x.json)
	p4, e4 := parser.ParseFormat("shell", x.shell)
	p5, e5 := parser.ParseFormat("sexp", x.sexp)
	p6, e6 := parser.ParseFormat("json", x.json)
	zv.Assert(e1 == nil && e2 == nil && e3 == nil && e4 == nil, "a well-formed program parses in every syntax")
	zv.Assert(sameAll(p1, x.prog), "the shell syntax denotes the program")
	zv.Assert(sameAll(p2, x.prog), "the s-expression syntax denotes the program")
	zv.Assert(sameAll(p3, x.prog), "the JSON syntax denotes the program")
	p7, e7 := parser.ParseJSONReader(strings.NewReader(x.jsonl))
	zv.Assert(e7 == nil && sameAll(p7, x.prog), "the JSON line syntax of the parse command denotes the program")
	zv.Assert(sameAll(p4, p1) && sameAll(p6, p3) && e6 == nil, "parsing by format name is the same")
	if x.sexp[0] == '(' && !hasSep(x.sexp) {
		zv.Assert(e5 == nil && sameAll(p5, x.prog), "the value parser reads the same program")
	}
	zv.Cover("same")
}

// hasSep reports a semicolon outside literals, which only script lines treat as a separator.
func hasSep(s string) bool {
	in := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\':
			i++
		case s[i] == '"':
			in = !in
		case s[i] == ';' && !in:
			return true
		}
	}
	return false
}

// Bounds: text of up to 2 (thorough 3) bytes of "ab\n"; programs of 2 instructions out of 14 (search, replace, insert, moves, nested calls, failing calls) with string arguments of up to
// 1 byte of `ab;"`; executed through ExecuteScriptWithFormat in each syntax and through ExecuteScript.
func P17_same_edit() {
	text := zv.Str("text", tq(2, 3), "ab\n")
	s := node{kind: 's', s: zv.Str("s", 1, `ab;"`)}
	n := numbers[zv.Choose("n", 3)]
	c := func(name string, a ...node) node { return node{kind: 'c', s: name, args: a} }
	pick := func(label string) node {
		all := []node{c("insert", s), c("search-forward", s), c("replace-match", s), c("goto-char", n), c("insert", c("upcase", s)), c("delete-char", n), c("insert", n), c("end-of-buffer"),
			c("kill-line"), c("set-mark"), c("delete-region"), c("no-such-function", s), c("forward-word", n), c("insert", c("buffer-substring", c("point-min"), c("point")))}
		return all[zv.Choose(label, len(all))]
	}
	x := render([]node{pick("i"), pick("j")})
	o1, e1 := texted.ExecuteScriptWithFormat(text, x.shell, "shell")
	o2, e2 := texted.ExecuteScriptWithFormat(text, x.sexp, "sexp")
	o3, e3 := texted.ExecuteScriptWithFormat(text, x.json, "json")
	o4, e4 := texted.ExecuteScript(text, x.sexp)
	zv.Assert((e1 == nil) == (e2 == nil) && (e1 == nil) == (e3 == nil) && (e1 == nil) == (e4 == nil), "a script fails in every syntax or in none")
	zv.Assert(o1 == o2 && o1 == o3 && o1 == o4, "the text is the same in every syntax")
	if e1 == nil {
		zv.Cover("edited")
	} else {
		zv.Cover("failed")
	}
}

// Bounds: the canonical JSON encoding of docs/spec.md (one array per line) of one instruction insert S, S of up to 1 byte.
func P17_canonical_json() {
	i := node{kind: 'c', s: "insert", args: []node{{kind: 's', s: zv.Str("s", 1, "a;")}}}
	k := zv.Choose("lines", 2)
	script := i.json()
	if k == 1 {
		script += "\n" + i.json()
	}
	_, err := texted.ExecuteScriptWithFormat("", script, "json")
	if err != nil {
		zv.Known("KF2-canonical-json-lines")
	}
	zv.Cover("tried")
}
