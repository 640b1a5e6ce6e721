package hparse

import (
	"os"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: the scripts of P16_separators that the reference reader rejects.
func P19_malformed_rejected() {
	s := anyScript(tq(5, 6))
	want := refParse(s)
	zv.Assume(want.malformed && !want.weird)
	_, err := parser.ParseString(s)
	zv.Assert(err != nil, "an unterminated string or list or a stray parenthesis is an error")
	zv.Cover("rejected")
}

// flatten lists the atoms of values in order.
func flatten(out []edlisp.Value, vs []edlisp.Value) []edlisp.Value {
	for _, v := range vs {
		if l, ok := v.(*edlisp.List); ok {
			out = flatten(out, l.Elements)
		} else {
			out = append(out, v)
		}
	}
	return out
}

// refAtoms lists the atoms of a script over "a1 ()\"" read as s-expression values; bad when malformed.
func refAtoms(s string) (atoms []edlisp.Value, bad, weird bool) {
	depth := 0
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case blank(c) || c == '\n':
			i++
		case c == '(':
			depth++
			i++
		case c == ')':
			if depth--; depth < 0 {
				return nil, true, weird
			}
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			if j == len(s) {
				return nil, true, weird
			}
			atoms = append(atoms, str(s[i+1:j]))
			i = j + 1
			if i < len(s) && (s[i] == 'a' || s[i] == '1' || s[i] == '"') {
				weird = true
			}
		default:
			j := i
			for j < len(s) && (s[j] == 'a' || s[j] == '1') {
				j++
			}
			n, isNum := 0.0, true
			for k := i; k < j; k++ {
				isNum = isNum && s[k] == '1'
				n = n*10 + 1
			}
			if isNum {
				atoms = append(atoms, num(n))
			} else {
				atoms = append(atoms, sym(s[i:j]))
			}
			i = j
			if i < len(s) && s[i] == '"' {
				weird = true
			}
		}
	}
	return atoms, depth != 0, weird
}

// Bounds: every text of up to 5 (thorough 6) bytes of "a1 ()\"" read by the value parser (ParseFormat sexp, the default of the test runner) and as a script line.
func P19_nothing_ignored() {
	s := zv.Str("s", tq(5, 6), "a1 ()\"")
	atoms, bad, weird := refAtoms(s)
	zv.Assume(!weird)
	var prog []edlisp.Value
	var err error
	if zv.Bool("value parser") {
		prog, err = parser.ParseFormat("sexp", s)
		zv.Cover("sexp")
	} else {
		prog, err = parser.ParseString(s)
		zv.Cover("line")
	}
	zv.Assert((err != nil) == bad, "malformed text is an error, well-formed text is not")
	if err == nil {
		zv.Assert(sameAll(flatten(nil, prog), atoms), "every word of the text is part of the program, in order")
		zv.Cover("accepted")
	}
}

// refJSON reads one JSON value over `[]",a1 `; kind 'l' list, 's' string, 'n' number, 0 malformed.
func refJSON(s string, i int) (kind byte, v edlisp.Value, next int, badCmd bool) {
	for i < len(s) && s[i] == ' ' {
		i++
	}
	if i == len(s) {
		return 0, nil, i, false
	}
	switch s[i] {
	case '"':
		j := i + 1
		for j < len(s) && s[j] != '"' {
			j++
		}
		if j == len(s) {
			return 0, nil, j, false
		}
		return 's', str(s[i+1 : j]), j + 1, false
	case '1':
		j, n := i, 0.0
		for j < len(s) && s[j] == '1' {
			n = n*10 + 1
			j++
		}
		return 'n', num(n), j, false
	case '[':
		var els []edlisp.Value
		bad := false
		for {
			i++
			k, e, n, b := refJSON(s, i)
			if k == 0 {
				for i < len(s) && s[i] == ' ' {
					i++
				}
				if len(els) == 0 && i < len(s) && s[i] == ']' {
					return 'l', list(), i + 1, false
				}
				return 0, nil, n, false
			}
			bad = bad || b
			if len(els) == 0 {
				if k == 's' {
					e = sym(e.(*edlisp.String).Value)
				} else {
					bad = true
				}
			}
			els = append(els, e)
			for i = n; i < len(s) && s[i] == ' '; {
				i++
			}
			if i == len(s) {
				return 0, nil, i, false
			}
			if s[i] == ']' {
				return 'l', list(els...), i + 1, bad
			}
			if s[i] != ',' {
				return 0, nil, i, false
			}
		}
	}
	return 0, nil, i, false
}

// Bounds: every text of up to 6 (thorough 7) bytes of `[]",1a ` between `[["a"` and `]` read as a JSON script, and up to 5 (6) bytes read as a whole script.
func P19_json() {
	pre, post := "", ""
	n := tq(5, 6)
	if zv.Bool("inside") {
		pre, post = `[["a"`, "]"
		n = tq(6, 7)
	}
	s := pre + zv.Str("s", n, "[]\",1a ") + post
	// the script is an array of instructions: read it by hand, element by element
	var want []edlisp.Value
	bad := true
	i := 0
	for i < len(s) && s[i] == ' ' {
		i++
	}
	if i < len(s) && s[i] == '[' {
		i++
		for {
			k, e, next, b := refJSON(s, i)
			if k == 0 {
				for i < len(s) && s[i] == ' ' {
					i++
				}
				if want == nil && i < len(s) && s[i] == ']' {
					bad = false
					i++
				}
				break
			}
			if k != 'l' || b {
				break
			}
			want = append(want, e)
			for i = next; i < len(s) && s[i] == ' '; {
				i++
			}
			if i < len(s) && s[i] == ']' {
				bad = false
				i++
				break
			}
			if i == len(s) || s[i] != ',' {
				break
			}
			i++
		}
		for ; i < len(s); i++ {
			if s[i] != ' ' {
				bad = true
			}
		}
	}
	prog, err := parser.ParseJSONString(s)
	zv.Assert((err != nil) == bad, "exactly the well-formed arrays of instructions are accepted")
	if err == nil {
		zv.Assert(sameAll(prog, want), "every element of the JSON text is part of the program")
		zv.Cover("accepted")
	} else {
		zv.Cover("rejected")
	}
}

// Bounds: 12 malformed endings after a valid editing instruction, in the three formats, with an arbitrary byte of "a;( \n" between; run on a file with arbitrary text of up to 3 bytes.
func P19_nothing_runs() {
	text := zv.Str("text", 3, "ab\n")
	bads := []string{`f "`, `(f`, `f )`, `(f "a"`, `f "\q"`, `"\`, `(insert "y") )`, `insert "y" (`}
	jbads := []string{`["insert","y"`, `["insert",true]`, `[1]`, `"insert"`, `["insert",{}]`, `["insert",["f",null]]`, `["insert" "y"]`, ``}
	format := []string{"shell", "sexp", "json"}[zv.Choose("format", 3)]
	k := zv.Choose("bad", 8)
	var script string
	switch format {
	case "shell":
		script = "insert \"x\"" + []string{"\n", ";"}[zv.Choose("sep", 2)] + bads[k]
	case "sexp":
		script = "(insert \"x\")" + []string{"\n", " "}[zv.Choose("sep", 2)] + bads[k]
	default:
		script = `[["insert","x"],` + jbads[k] + `]`
	}
	out, err := texted.ExecuteScriptWithFormat(text, script, format)
	zv.Assert(err != nil, "a malformed script is an error")
	zv.Assert(out == "", "a malformed script yields no text")
	name := zv.TempDir() + "/f"
	os.WriteFile(name, []byte(text), 0644)
	if zv.Bool("default format") && format != "json" {
		err = texted.EditFile(name, script)
	} else {
		err = texted.EditFileWithFormat(name, script, format)
	}
	zv.Assert(err != nil, "editing a file with a malformed script is an error")
	got, rerr := os.ReadFile(name)
	zv.Assert(rerr == nil && string(got) == text, "the file is untouched")
	zv.Cover("rejected")
}

// Bounds: a script line of 70000 bytes: a concrete literal of 70000 letters and a semicolon.
func P19_long_line() {
	long := strings.Repeat("x", 70000) + ";"
	prog, err := parser.ParseString(`f "` + long + `"`)
	zv.Assert(err == nil, "a long line is accepted")
	zv.Assert(sameAll(prog, []edlisp.Value{list(sym("f"), str(long))}), "no part of a long line is dropped")
	zv.Cover("long")
}
