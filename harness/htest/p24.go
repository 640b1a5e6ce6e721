// Package htest holds the harnesses for the XML test runner.
package htest

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	tt "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/zzverif/zv"
)

func tq(quick, thorough int) int {
	if zv.Tier() > 0 {
		return thorough
	}
	return quick
}

// outcome is what a script does, found by running it directly.
type outcome struct {
	bad   bool // the script cannot be parsed
	text  string
	value edlisp.Value
	err   error
}

func direct(lang, script, buffer string) outcome {
	if lang == "json" {
		return runJSON(script, buffer)
	}
	prog, err := parser.ParseString(script)
	return finish(prog, err, buffer)
}

func runJSON(script, buffer string) outcome {
	if strings.TrimSpace(script) == "" {
		return finish(nil, nil, buffer)
	}
	prog, err := parser.ParseJSONString(script)
	return finish(prog, err, buffer)
}

func finish(prog []edlisp.Value, err error, buffer string) outcome {
	if err != nil {
		return outcome{bad: true}
	}
	b := edlisp.NewBuffer(buffer)
	v, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b)
	return outcome{text: b.String(), value: v, err: err}
}

// same is structural equality of values.
func same(a, b edlisp.Value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case *edlisp.String:
		b, ok := b.(*edlisp.String)
		return ok && a.Value == b.Value
	case *edlisp.Number:
		b, ok := b.(*edlisp.Number)
		return ok && a.Value == b.Value
	case *edlisp.Symbol:
		b, ok := b.(*edlisp.Symbol)
		return ok && a.Name == b.Name
	case *edlisp.List:
		b, ok := b.(*edlisp.List)
		if !ok || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Get(i), b.Get(i)) {
				return false
			}
		}
		return true
	}
	zv.Fail("a value of no known kind")
	return false
}

// verdict is the oracle: does the case pass? The flags are for the recorded
// findings: the input's language is heeded, and so is an output stated next to
// an expected error.
func verdict(tc *tt.TestCase, heedLang, heedOutput bool) bool {
	lang := tc.Input.Lang
	if !heedLang {
		lang = "shell"
	}
	o := direct(lang, tc.Input.Text, tc.Buffer)
	if o.bad {
		return false
	}
	output := tc.Output != ""
	wantErr := strings.TrimSpace(tc.Error.Text)
	if wantErr != "" {
		return o.err != nil && strings.Contains(o.err.Error(), strings.Trim(wantErr, "()")) && (!heedOutput || !output || o.text == tc.Output)
	}
	if o.err != nil {
		return false
	}
	result := strings.TrimSpace(tc.Result.Text)
	if !output && result == "" {
		return false
	}
	if output && o.text != tc.Output {
		return false
	}
	if result != "" {
		lang := tc.Result.Lang
		if lang == "" {
			lang = "sexp"
		}
		vs, err := parser.ParseFormat(lang, result)
		if err != nil || len(vs) > 1 {
			return false
		}
		var want edlisp.Value
		if len(vs) == 1 {
			want = vs[0]
		}
		return same(want, o.value)
	}
	return true
}

// right compares a verdict with the oracle's, and recognises the recorded findings.
func right(tc *tt.TestCase, passed bool) bool {
	if passed == verdict(tc, true, true) {
		return true
	}
	if tc.Output != "" && strings.TrimSpace(tc.Error.Text) != "" && passed == verdict(tc, true, false) {
		zv.Known("KF6-output-next-to-error")
		return true
	}
	if tc.Input.Lang == "json" && (passed == verdict(tc, false, true) || passed == verdict(tc, false, false)) {
		zv.Known("KF5-json-input")
		return true
	}
	return false
}

// judge checks the verdict on tc, with and without a trace callback.
func judge(tc *tt.TestCase) {
	keep := *tc
	env := edlisp.NewDefaultEnvironment()
	r := tt.RunTest(tc, env)
	zv.Assert(r != nil, "there is a result")
	if r.Passed {
		zv.Cover("passes")
		zv.Assert(right(tc, true), "a case does not pass when an expectation it states fails")
	} else {
		zv.Cover("fails")
		zv.Assert(right(tc, false), "a case passes when all expectations it states hold")
	}
	zv.Assert(r.Passed == (r.Error == nil), "a failing case says why and a passing one reports no error")
	zv.Assert(*tc == keep, "the test case is not modified")
	r2 := tt.RunTestWithTrace(tc, env, func(*edlisp.TraceContext) {})
	zv.Assert(r2.Passed == r.Passed, "the verdict is the same with tracing, and when the case runs again")
}

var scripts = []string{
	"",
	"insert \"a\"",
	"insert \"\"\npoint",
	"buffer-substring 1 9",
	"search-forward \"b\"\nreplace-match \"a\"",
	"insert \"a\"\nsearch-forward \"zz\"",
	"insert \"b\"\nno-such-function",
	"(insert",
	"\"a\"",
}

var jsons = []string{
	`["insert","a"]`,
	`[["insert","a"],["point"]]`,
	`["nope"]`,
	`["insert"`,
	`"a"`,
}

func input(label string) tt.Input {
	if zv.Choose(label+" json", 2) == 1 {
		return tt.Input{Lang: "json", Text: jsons[zv.Choose(label, len(jsons))]}
	}
	lang := []string{"", "shell"}[zv.Choose(label+" lang", 2)]
	return tt.Input{Lang: lang, Text: scripts[zv.Choose(label, len(scripts))]}
}

// failing picks a script among those whose evaluation fails, and one that works.
func failing(label string) tt.Input {
	k := zv.Choose(label, 4)
	if k == 3 {
		return tt.Input{Lang: "json", Text: `["nope"]`}
	}
	return tt.Input{Lang: "shell", Text: []string{"insert \"a\"", "insert \"a\"\nsearch-forward \"zz\"", "insert \"b\"\nno-such-function"}[k]}
}

// P24_output: expected outputs, for any buffer and expected text.
//
// Bounds: buffers of up to 2 (thorough 3) bytes and outputs of up to 3 (4) of "ab \n"; 10 shell and 5 JSON inputs (empty, editing, failing, unparsable).
func P24_output() {
	tc := &tt.TestCase{Buffer: zv.Str("buffer", tq(2, 3), "ab \n"), Input: input("script"), Output: zv.Str("output", tq(3, 4), "ab \n")}
	judge(tc)
}

// P24_near: an expected output that differs from the final text in one place,
// or not at all, next to other expectations that hold.
//
// Bounds: the texts and inputs of P24_output (also "\r"); the final text with one byte inserted, removed or replaced at every place, or unchanged; with or without the error the script gives.
func P24_near() {
	tc := &tt.TestCase{Buffer: zv.Str("buffer", tq(2, 3), "ab\n\r"), Input: input("script")}
	o := direct(tc.Input.Lang, tc.Input.Text, tc.Buffer)
	if o.bad {
		return
	}
	t := o.text
	switch zv.Choose("change", 4) {
	case 1:
		i := zv.Concrete(zv.IntRange("at", 0, len(t)))
		t = t[:i] + zv.StrN("extra", 1, " \na") + t[i:]
	case 2:
		if t == "" {
			return
		}
		i := zv.Concrete(zv.IntRange("at", 0, len(t)-1))
		t = t[:i] + t[i+1:]
	case 3:
		if t == "" {
			return
		}
		i := zv.Concrete(zv.IntRange("at", 0, len(t)-1))
		t = t[:i] + zv.StrN("other", 1, "a \n\r") + t[i+1:]
	}
	tc.Output = t
	if o.err != nil && zv.Choose("error stated", 2) == 1 {
		tc.Error.Text = o.err.Error()
	}
	judge(tc)
}

// P24_result: expected results of every shape, in every language.
//
// Bounds: 8 scripts whose last values are strings, numbers, symbols and errors; results of 9 shapes around up to 1 (thorough 2) bytes of "ab1", blanks around them, in 4 languages and an unknown one; with and without a right or wrong output.
func P24_result() {
	tc := &tt.TestCase{Buffer: zv.Str("buffer", tq(1, 2), "ab1"), Input: tt.Input{Text: []string{"", "point", "point\nlength \"b\"", "buffer-substring 1 9", "insert \"a\"", "search-forward \"b\"", "looking-at \"a\"", "forward-char 9"}[zv.Choose("script", 8)]}}
	w := zv.Str("text", tq(1, 2), "ab1")
	sp := []string{"", " ", "\n\t"}[zv.Choose("space", 3)]
	k := zv.Choose("shape", 9)
	r := ""
	switch k {
	case 0:
		r = `"` + w + `"`
	case 1:
		r = w
	case 2:
		r = "(" + w + ")"
	case 3:
		r = "()"
	case 4:
		r = w + " " + w
	case 5:
		r = `"` + w
	case 6:
		r = "[" + w + "]"
	case 7:
		r = "nil"
	case 8:
		r = "null"
	}
	tc.Result = tt.Result{Lang: []string{"", "sexp", "shell", "json", "other"}[zv.Choose("lang", 5)], Text: sp + r + sp}
	if zv.Choose("output stated", 2) == 1 {
		o := direct("", tc.Input.Text, tc.Buffer)
		tc.Output = o.text + []string{"", "a"}[zv.Choose("output wrong", 2)]
	}
	judge(tc)
}

// P24_value: a numeric or string result is compared exactly with the last value.
//
// Bounds: numbers 0..5 with 3 fractions against values 1..4; strings of up to 2 bytes of "ab \n" against such strings.
func P24_value() {
	n := zv.IntRange("point", 1, 4)
	m := zv.IntRange("expected", 0, 5)
	zv.ExactFmt(true)
	tc := &tt.TestCase{Buffer: "abc"}
	tc.Input.Text = "goto-char " + []string{"1", "2", "3", "4"}[zv.Concrete(n)-1] + "\npoint"
	tc.Result.Text = []string{"0", "1", "2", "3", "4", "5"}[zv.Concrete(m)] + []string{"", ".0", ".5"}[zv.Choose("fraction", 3)]
	want := n == m && !strings.HasSuffix(tc.Result.Text, ".5")
	r := tt.RunTest(tc, edlisp.NewDefaultEnvironment())
	zv.Assert(r.Passed == want, "a number passes exactly when it is the last value")
	s := zv.Str("value", 2, "ab \n")
	e := zv.Str("wanted", 2, "ab \n")
	tc = &tt.TestCase{Buffer: s, Input: tt.Input{Text: "buffer-substring 1 3"}, Result: tt.Result{Text: `"` + strings.ReplaceAll(e, "\n", `\n`) + `"`}}
	r = tt.RunTest(tc, edlisp.NewDefaultEnvironment())
	zv.Assert(r.Passed == (s == e), "a string passes exactly when it is the last value")
}

// P24_error: expected errors.
//
// Bounds: 4 failing inputs; expected errors of up to 2 bytes of "ae ()\n", every short substring near the start of the actual message, that with a byte inserted, and another message, in parentheses or not; with and without an output or result.
func P24_error() {
	tc := &tt.TestCase{Buffer: zv.Str("buffer", 1, "ab"), Input: failing("script")}
	o := direct(tc.Input.Lang, tc.Input.Text, tc.Buffer)
	text := ""
	switch zv.Choose("kind", 4) {
	case 0:
		text = zv.Str("error", 2, "ae ()\n")
	case 1:
		if o.err == nil {
			return
		}
		m := o.err.Error()
		i := zv.Concrete(zv.IntRange("from", 0, min(len(m), tq(3, 8))))
		j := zv.Concrete(zv.IntRange("to", i, min(len(m), i+tq(4, 8))))
		text = m[i:j]
	case 2:
		text = "search failed"
	case 3:
		if o.err == nil {
			return
		}
		m := o.err.Error()
		i := zv.Concrete(zv.IntRange("at", 0, min(len(m), tq(6, 40))))
		text = m[:i] + zv.StrN("wrong", 1, "xQ%") + m[i:]
	}
	tc.Error = tt.Error{Lang: []string{"", "sexp"}[zv.Choose("lang", tq(1, 2))], Text: []string{"", "(", "\n"}[zv.Choose("open", 3)] + text + []string{"", ")"}[zv.Choose("close", tq(1, 2))]}
	switch zv.Choose("also", 4) {
	case 1:
		tc.Output = "a"
	case 2:
		tc.Result.Text = "1"
	case 3:
		tc.Output = o.text
	}
	judge(tc)
}

// P24_nothing: a case without an expectation never passes.
//
// Bounds: the inputs of P24_output; results and errors of up to 2 blanks.
func P24_nothing() {
	tc := &tt.TestCase{Buffer: zv.Str("buffer", 2, "ab"), Input: input("script")}
	tc.Result = tt.Result{Lang: []string{"", "json"}[zv.Choose("lang", 2)], Text: zv.Str("result", 2, " \n\t")}
	tc.Error.Text = zv.Str("error", 2, " \n\t")
	r := tt.RunTest(tc, edlisp.NewDefaultEnvironment())
	zv.Assert(!r.Passed && r.Error != nil, "a case without an expectation does not pass")
}

// ---- files

func esc(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			sb.WriteString("&lt;")
		case '&':
			sb.WriteString("&amp;")
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

func elem(name, attr, text string) string {
	if attr != "" {
		attr = ` lang="` + attr + `"`
	}
	return "<" + name + attr + ">" + text + "</" + name + ">"
}

// P24_file_text: the elements' texts are what the file says, whatever characters they hold.
//
// Bounds: buffers of up to 2 (thorough 3) bytes of `a<&>"'`, blanks and newlines, escaped or CDATA; outputs of up to 3 (4) bytes.
func P24_file_text() {
	tc := &tt.TestCase{Input: tt.Input{Lang: "shell", Text: "\ninsert \"<\"\n"}}
	tc.Buffer = zv.Str("buffer", tq(2, 3), "a<&>\"'\n ")
	tc.Output = zv.Str("text", tq(3, 4), "a<&>\n")
	b := elem("buffer", "", esc(tc.Buffer))
	if zv.Choose("cdata", 2) == 1 {
		b = elem("buffer", "", "<![CDATA["+tc.Buffer+"]]>")
	}
	file(tc, b+"\n"+elem("input", "shell", esc(tc.Input.Text))+elem("output", "", esc(tc.Output)))
}

// P24_file: a test file means the case its elements describe, in any order.
//
// Bounds: buffers of up to 1 (thorough 2) bytes, 2 languages, output absent, empty or up to 2 (3) bytes, 3 results, error or not, elements in order or reversed, 3 separators.
func P24_file() {
	tc := &tt.TestCase{}
	tc.Buffer = zv.Str("buffer", tq(1, 2), "a<&\n")
	tc.Input = tt.Input{Lang: []string{"shell", "json"}[zv.Choose("lang", 2)]}
	if tc.Input.Lang == "json" {
		tc.Input.Text = `["insert","<"]`
	} else {
		tc.Input.Text = "\ninsert \"<\"\n"
	}
	x := []string{elem("buffer", "", esc(tc.Buffer)), elem("input", tc.Input.Lang, esc(tc.Input.Text))}
	k := zv.Choose("output", 3)
	if k == 1 {
		tc.Output = zv.Str("text", tq(2, 3), "a<")
	}
	if k > 0 {
		x = append(x, elem("output", "", esc(tc.Output)))
	}
	switch zv.Choose("result", 3) {
	case 1:
		tc.Result = tt.Result{Text: `""`}
	case 2:
		tc.Result = tt.Result{Lang: "json", Text: `"<"`}
	}
	if tc.Result.Text != "" {
		x = append(x, elem("result", tc.Result.Lang, esc(tc.Result.Text)))
	}
	if zv.Choose("error", 2) == 1 {
		tc.Error = tt.Error{Lang: "sexp", Text: "undefined"}
		x = append(x, elem("error", "sexp", esc(tc.Error.Text)))
	}
	if zv.Choose("reversed", 2) == 1 {
		for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
	}
	file(tc, strings.Join(x, []string{"", "\n", "<!-- note -->"}[zv.Choose("between", 3)]))
}

// file checks that doc is read as tc and runs as tc does.
func file(tc *tt.TestCase, doc string) {
	got, err := tt.ParseTestCase(strings.NewReader(doc))
	zv.Assert(err == nil && got != nil, "a well-formed test file is read")
	zv.Assert(got.Buffer == tc.Buffer, "the buffer is the text of its element")
	zv.Assert(got.Input == tc.Input, "the input is the text of its element, in the language named")
	zv.Assert(got.Output == tc.Output, "the expected output is the text of its element")
	zv.Assert(got.Result == tc.Result, "the expected result is the text of its element, in the language named")
	zv.Assert(got.Error == tc.Error, "the expected error is the text of its element")
	p := filepath.Join(zv.TempDir(), "some.xml")
	zv.Assert(os.WriteFile(p, []byte(doc), 0644) == nil, "scratch file")
	env := edlisp.NewDefaultEnvironment()
	want := tt.RunTest(tc, env)
	if want.Passed {
		zv.Cover("passes")
	}
	r := tt.RunTestFile(p, env)
	zv.Assert(r != nil && r.Passed == want.Passed && (r.Error == nil) == (want.Error == nil), "running the file is running the case")
	zv.Assert(r.Name == "some.xml", "the result names the file")
}

// P24_badfile: a file that cannot be read as a test does not pass.
//
// Bounds: a missing file; a good file cut at every place; and with every byte replaced by one of 8.
func P24_badfile() {
	good := "<buffer>a</buffer><input lang=\"shell\">\ninsert \"b\"\n</input><output>ba</output>"
	p := filepath.Join(zv.TempDir(), "t.xml")
	env := edlisp.NewDefaultEnvironment()
	switch zv.Choose("kind", 3) {
	case 0: // missing
		zv.Cover("missing")
		r := tt.RunTestFile(p, env)
		zv.Assert(r != nil && !r.Passed && r.Error != nil && r.Name == "t.xml", "a missing file does not pass")
	case 1: // cut short
		i := zv.Concrete(zv.IntRange("cut", 0, len(good)))
		zv.Assert(os.WriteFile(p, []byte(good[:i]), 0644) == nil, "scratch file")
		r := tt.RunTestFile(p, env)
		zv.Assert(r != nil && r.Name == "t.xml" && r.Passed == (i == len(good)), "a test file cut short does not pass")
		zv.Assert(r.Passed == (r.Error == nil), "a failing file says why")
	case 2: // one byte changed
		i := zv.Concrete(zv.IntRange("at", 0, len(good)-1))
		c := zv.StrN("byte", 1, "<>&\"a/ ")
		zv.Assert(os.WriteFile(p, []byte(good[:i]+c+good[i+1:]), 0644) == nil, "scratch file")
		r := tt.RunTestFile(p, env)
		zv.Assert(r != nil && r.Name == "t.xml" && r.Passed == (r.Error == nil), "a failing file says why")
		tc, err := tt.ParseTestCase(strings.NewReader(good[:i] + c + good[i+1:]))
		if err != nil {
			zv.Assert(!r.Passed, "a file that cannot be parsed does not pass")
			return
		}
		zv.Assert(right(tc, r.Passed), "the file passes exactly when its case does")
	}
}

// ---- long texts and many cases

// P24_long: buffers and outputs of thousands of bytes that differ in one place, or not at all.
//
// Bounds: 5000 (thorough 70000) bytes with up to 1 byte inserted at one of 8 places, in buffer and output; 3 scripts; with and without a result.
func P24_long() {
	n := tq(5000, 70000)
	fill := strings.Repeat("cd \n", n/4)
	i := []int{0, 1, 1023, 1024, 4095, 4096, n - 1, n}[zv.Choose("at", 8)]
	c := zv.Str("c", 1, "ab")
	tc := &tt.TestCase{Buffer: fill[:i] + c + fill[i:]}
	switch zv.Choose("script", 3) {
	case 0:
		tc.Input.Text = "point"
	case 1:
		tc.Input.Text = "insert \"" + strings.Repeat("z", 300) + "\"\nend-of-buffer\nbuffer-substring 1 -1"
	case 2:
		tc.Input.Text = "search-forward \"a\"\nreplace-match \"b\""
	}
	o := direct("", tc.Input.Text, tc.Buffer)
	d := zv.Str("d", 1, "ab")
	j := i
	if strings.HasPrefix(o.text, "z") {
		j += 300
	}
	tc.Output = o.text[:j] + d + o.text[min(len(o.text), j+len(c)):]
	if zv.Bool("result") {
		tc.Result.Text = "\"" + strings.ReplaceAll(tc.Output, "\n", "\\n") + "\""
	}
	judge(tc)
}

// P24_sequence: verdicts do not depend on the cases before.
//
// Bounds: every sequence of 3 (thorough 4) out of 8 cases in one environment.
func P24_sequence() {
	cases := []*tt.TestCase{
		{Buffer: "ab", Input: tt.Input{Text: "search-forward \"b\"\nset-mark"}, Output: "ab"},
		{Buffer: "ab", Input: tt.Input{Text: "replace-match \"x\""}, Error: tt.Error{Text: "replace-match"}},
		{Buffer: "ba", Input: tt.Input{Text: "point"}, Result: tt.Result{Text: "1"}},
		{Buffer: "ba", Input: tt.Input{Text: "insert \"x\""}, Output: "ba"},
		{Buffer: "", Input: tt.Input{Text: "insert \"x\"\nno-such"}, Error: tt.Error{Text: "no-such"}},
		{Buffer: "", Input: tt.Input{Text: ""}},
		{Buffer: "", Input: tt.Input{Text: "point"}, Result: tt.Result{Text: "2"}},
		{Buffer: "q", Input: tt.Input{Text: "forward-char\nmark"}, Result: tt.Result{Text: "1"}, Output: "q"},
	}
	want := []bool{true, true, true, false, true, false, false, true}
	env := edlisp.NewDefaultEnvironment()
	n := 0
	for k := 0; k < tq(3, 4); k++ {
		i := zv.Choose("case", len(cases))
		r := tt.RunTest(cases[i], env)
		zv.Assert(r.Passed == want[i] && (r.Error == nil) == r.Passed, "a verdict depends on the case alone")
		if r.Passed {
			n++
		}
	}
	if n > 1 {
		zv.Cover("passes")
	}
}
