package hfile

import (
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/odd"
	"github.com/dhamidi/texted/zzverif/zv"
)

const hexDigits = "0123456789abcdef"

// lit writes s as a literal of shell lines and s-expressions.
func lit(s string) string {
	out := `"`
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < ' ' || c > '~' || c == '"' || c == '\\' {
			out += `\x` + string([]byte{hexDigits[c>>4], hexDigits[c&15]})
		} else {
			out += string([]byte{c})
		}
	}
	return out + `"`
}

// anEdit makes a script that edits any text with a string s, and the text it makes of content.
func anEdit(content, s string) (script, want string) {
	switch zv.Choose("edit", 5) {
	case 0:
		return `insert ` + lit(s), s + content
	case 1:
		return "end-of-buffer\ninsert " + lit(s), content + s
	case 2:
		return `mark-whole-buffer; replace-region ` + lit(s), s
	case 3:
		return `forward-char 0; (delete-char 0)`, content
	}
	return `insert ` + lit(s) + "; beginning-of-buffer; search-forward " + lit(s) + "\nreplace-match \"\"; delete-char 1", content[min(1, len(content)):]
}

// Bounds: contents and inserted strings out of 200 of odd content (pairs of one and one of 13, thorough all); 5 edits; single and batch calls with the default (thorough also the shell) format, in a batch after another file.
func P20_odd() {
	content, s := odd.Pair("content")
	zv.Assume(s != "")
	script, want := anEdit(content, s)
	p, q := put("p", content), put("q", "ab")
	format := []string{"", "shell"}[zv.Choose("format", tq(1, 2))]
	if zv.Choose("batch", 2) == 1 {
		res, err := editFiles([]string{q, p}, script, format)
		zv.Assert(err == nil && len(res) == 2 && res[0].Success && res[1].Success, "there is one result per requested file")
		out, _ := exec("ab", script, format)
		got, _ := read(q)
		zv.Assert(got == out, "the file holds exactly the edited text")
		zv.Cover("batch")
	} else {
		zv.Assert(editFile(p, script, format) == nil, "an error is returned exactly when the script does not run through")
		zv.Cover("single")
	}
	got, ok := read(p)
	zv.Assert(ok && got == want, "the file holds exactly the edited text")
	got, err := exec(content, script, format)
	zv.Assert(err == nil && got == want, "the library edits the same text")
	zv.Assert(names() == "p|q|", "no other file is created or removed")
}

// Bounds: inputs and inserted strings out of 200 of odd content (pairs of one and one of 13, thorough all); 5 edits by the eval tool, by the edit tool in a file, and 3 values in expression mode.
func P22_odd() {
	input, s := odd.Pair("input")
	switch zv.Choose("tool", 3) {
	case 0:
		zv.Assume(s != "")
		script, want := anEdit(input, s)
		text, isErr := callTool(tools.TextedEvalHandler, map[string]any{"input": input, "script": script})
		zv.Assert(!isErr && text == want, "texted_eval returns the text ExecuteScript returns")
		zv.Cover("eval")
	case 1:
		zv.Assume(s != "")
		script, want := anEdit(input, s)
		p := put("p", input)
		text, isErr := callTool(tools.EditFileHandler, map[string]any{"files": []any{p}, "script": script})
		zv.Assert(!isErr, "an edit is answered with a report")
		report(text, []string{p}, []bool{true})
		got, _ := read(p)
		zv.Assert(got == want, "the script is applied to every listed file as EditFiles does")
		zv.Cover("edit")
	case 2:
		k := zv.Choose("value", 3)
		script := []string{"concat (buffer-substring 1 -1) " + lit(s), "insert " + lit(s) + "; buffer-substring 1 -1", "looking-at " + lit("\\Q"+s)}[k]
		zv.Assume(k < 2 || odd.Valid(s) && odd.Valid(input))
		text, isErr := callTool(tools.TextedEvalHandler, map[string]any{"input": input, "script": script, "output": "expression"})
		var want edlisp.Value
		switch k {
		case 0:
			want = edlisp.NewString(input + s)
		case 1:
			want = edlisp.NewString(s + input)
		case 2:
			want = edlisp.NewSymbol("nil")
			if strings.HasPrefix(input, s) {
				want = edlisp.NewSymbol("t")
			}
		}
		back, err := parser.ParseSexp(text)
		zv.Assert(!isErr && err == nil && len(back) == 1 && edlisp.Equal(back[0], want), "expression mode returns the last value as an s-expression")
		zv.Cover("value")
	}
}

// Bounds: one of 200 strings of odd content as input and another or nearly the same one, edited in both orders and again; 3 scripts that insert or look for one of 3 (thorough 13) strings.
func P25_odd() {
	a := odd.Str("a")
	b := odd.NearOne("b", a)
	s := lit(odd.Few[zv.Choose("s", tq(3, len(odd.Few)))])
	script := []string{"insert " + s, "search-forward " + s + "; replace-match \"<>\"", "re-search-forward \"[a-z]+\"; replace-match " + s}[zv.Choose("script", 3)]
	a1, ea1 := texted.ExecuteScript(a, script)
	b1, eb1 := texted.ExecuteScript(b, script)
	a2, ea2 := texted.ExecuteScript(a, script)
	b2, eb2 := texted.ExecuteScriptWithFormat(b, script, "shell")
	zv.Assert(a1 == a2 && (ea1 == nil) == (ea2 == nil), "the same request gives the same answer")
	zv.Assert(b1 == b2 && (eb1 == nil) == (eb2 == nil), "the same request gives the same answer")
	if a == b {
		zv.Assert(a1 == b1 && (ea1 == nil) == (eb1 == nil), "the same request gives the same answer")
		zv.Cover("same")
	} else if ea1 == nil && strings.HasPrefix(script, "insert") {
		zv.Assert(eb1 == nil && a1 != b1, "different texts stay different when the same text is inserted")
		zv.Cover("different")
	}
}
