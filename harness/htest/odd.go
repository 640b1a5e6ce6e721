package htest

import (
	"strconv"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	tt "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/zzverif/odd"
	"github.com/dhamidi/texted/zzverif/zv"
)

// xmlText reports text that an XML file holds as it is.
func xmlText(s string) bool {
	for _, r := range s {
		if r < ' ' && r != '\n' && r != '\t' || r == 0xfffe || r == 0xffff {
			return false
		}
	}
	return odd.Valid(s) && !strings.Contains(s, "]]>")
}

// P24_odd: an expected output that is nearly the final text.
//
// Bounds: buffers of 200 strings of odd content, to which one of 13 strings is added or nothing; the 21 texts nearly the final one as the expected output; as a case and (text that XML can hold) as a file.
func P24_odd() {
	s := odd.Str("buffer")
	ins := odd.Few[zv.Choose("inserted", tq(4, len(odd.Few)))]
	tc := &tt.TestCase{Buffer: s, Input: tt.Input{Lang: "shell", Text: "end-of-buffer; insert " + strconv.Quote(ins)}}
	final := s + ins
	tc.Output = odd.NearOne("expected", final)
	if zv.Choose("file", 2) == 1 {
		zv.Assume(xmlText(s) && xmlText(tc.Output))
		file(tc, elem("buffer", "", esc(s))+elem("input", "shell", esc(tc.Input.Text))+elem("output", "", esc(tc.Output)))
		zv.Cover("file")
		return
	}
	r := tt.RunTest(tc, edlisp.NewDefaultEnvironment())
	zv.Assert(r.Passed == (tc.Output != "" && tc.Output == final), "a case passes exactly when the text is the expected one")
	zv.Assert(r.Passed == (r.Error == nil), "a failing case says why and a passing one reports no error")
	zv.Cover("case")
}

// P24_odd_result: an expected result that is nearly the last value, and an expected error that is nearly part of the error.
//
// Bounds: 200 strings of odd content as values or in error messages; the 21 texts nearly it as expected results; 21 numbers in pairs.
func P24_odd_result() {
	zv.ExactFmt(true)
	env := edlisp.NewDefaultEnvironment()
	if zv.Choose("number", 2) == 1 {
		nums := []string{"0", "1", "-1", "1000000", "1000000.5", "1000001", "1e6", "1e9", "1000000000.25", "999999.999", "0.1", "0.10000000001", "1e-9", "-0.5", "1e300", "1e301", "9007199254740992", "9007199254740993", "9007199254740994", "inf", "-inf"}
		a, b := nums[zv.Choose("a", len(nums))], nums[zv.Choose("b", len(nums))]
		x, _ := strconv.ParseFloat(a, 64)
		y, _ := strconv.ParseFloat(b, 64)
		env.Functions["give"] = func(args []edlisp.Value, buf *edlisp.Buffer) (edlisp.Value, error) { return args[0], nil }
		tc := &tt.TestCase{Buffer: "a", Input: tt.Input{Text: "give " + a}, Result: tt.Result{Text: b}}
		zv.Assert(tt.RunTest(tc, env).Passed == (x == y), "a number passes exactly when it is the last value")
		zv.Cover("number")
		return
	}
	s := odd.Str("value")
	e := odd.NearOne("expected", s)
	tc := &tt.TestCase{Buffer: s, Input: tt.Input{Text: "buffer-substring 1 -1"}, Result: tt.Result{Text: strconv.Quote(e)}}
	zv.Assert(tt.RunTest(tc, env).Passed == (s == e), "a string passes exactly when it is the last value")
	tc = &tt.TestCase{Buffer: s, Input: tt.Input{Text: "no-such; insert \"a\""}, Error: tt.Error{Text: e}}
	if strings.TrimSpace(e) != "" {
		judge(tc)
		zv.Cover("error")
	}
	zv.Cover("string")
}
