package hcli

import (
	"strings"

	"github.com/dhamidi/texted/commands"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/zv"
)

func equalAll(a, b []edlisp.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !edlisp.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Bounds: the parse command on 7 scripts with a literal of up to 2 bytes of 10 and one on invalid ones, from shell, s-expression or JSON lines to each format, plus invalid format names.
func P18_parse_command() {
	lit := zv.Str("lit", 2, "a;()[], x\n")
	in := []string{"shell", "sexp", "json", "bad"}[zv.Choose("in", 4)]
	out := []string{"sexp", "shell", "json", "bad"}[zv.Choose("out", 4)]
	var script string
	k := zv.Choose("script", 7)
	if in == "json" {
		script = []string{`["insert", "x"]`, `["goto-char", 2.5]` + "\n" + `["insert", "y"]`, `["insert", ["upcase", "x"]]`, ``, `["insert", "x"`, `{"a": 1}`, `["f", 1e300, -3]`}[k]
	} else {
		script = []string{`insert "` + lit + `"`, `goto-char 2; f 1e300 -0.5 x`, `(insert (upcase "` + lit + `"))`, "", `insert "` + lit, `(insert "x"`, "f ()\n(g)"}[k]
	}
	zv.SetStdin(script)
	err := runCmd(commands.NewParseCommand(), []string{"--input-format", in, "--output-format", out})
	text := zv.TakeStdout()
	if in == "bad" || out == "bad" {
		zv.Assert(err != nil && text == "", "an unknown format is an error")
		zv.Cover("format")
		return
	}
	var prog []edlisp.Value
	var perr error
	if in == "json" {
		prog, perr = parser.ParseJSONReader(strings.NewReader(script))
	} else {
		prog, perr = parser.ParseString(script)
	}
	if perr != nil {
		zv.Assert(err != nil && text == "", "a malformed script is an error and nothing is written")
		zv.Cover("malformed")
		return
	}
	if err != nil {
		nested := false
		for _, v := range prog {
			l, ok := v.(*edlisp.List)
			zv.Assert(ok, "a program consists of lists")
			for _, e := range l.Elements {
				if _, ok := e.(*edlisp.List); ok {
					nested = true
				}
			}
		}
		zv.Assert(out == "shell" && nested, "only nested lists cannot be written, in shell format")
		zv.Cover("nested")
		return
	}
	var back []edlisp.Value
	if out == "json" {
		// symbols in argument position become strings
		back, perr = parser.ParseJSONReader(strings.NewReader(text))
		for _, v := range prog {
			l := v.(*edlisp.List)
			for i := 1; i < len(l.Elements); i++ {
				if s, ok := l.Elements[i].(*edlisp.Symbol); ok {
					l.Elements[i] = edlisp.NewString(s.Name)
				}
			}
		}
	} else {
		back, perr = parser.ParseString(text)
	}
	zv.Assert(perr == nil && equalAll(back, prog), "the converted script is the same program")
	zv.Cover("converted")
}
