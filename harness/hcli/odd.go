package hcli

import (
	"strconv"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/odd"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: contents and inserted strings out of 200 of odd content (pairs of one and one of 6, thorough 13), inserted at the start or the end, or everything replaced; from stdin or a file to stdout, the file itself (with a backup or not) or another file; the script
// given by -s, or for insertions at the end by a file.
func P21_odd() {
	content, s := odd.Str("content"), odd.Few[zv.Choose("few", tq(6, len(odd.Few)))]
	if zv.Choose("swapped", 2) == 1 {
		content, s = s, content
	}
	put("f", content)
	zv.SetStdin(content)
	lit := strconv.Quote(s)
	k := zv.Choose("edit", 3)
	script := []string{"insert " + lit, "end-of-buffer; insert " + lit + "\n", "mark-whole-buffer\n(replace-region " + lit + ")"}[k]
	want := []string{s + content, content + s, s}[k]
	after := files()
	args := []string{"-s", script}
	if k == 1 {
		put("script", script)
		args, after["script"] = []string{"-f", at("script")}, script
	}
	toOut := false
	switch zv.Choose("target", 5) {
	case 0:
		toOut = true
	case 1:
		args = append(args, at("f"))
		toOut = true
	case 2:
		args = append(args, "-i", at("f"))
		after["f"] = want
	case 3:
		args = append(args, "-i", "--backup", ".orig", at("f"))
		after["f"], after["f.orig"] = want, content
	case 4:
		args = append(args, "-o", at("out"), at("f"))
		after["out"] = want
	}
	err := edit(args...)
	out := zv.TakeStdout()
	zv.Assert(err == nil, "the command fails exactly when the request cannot be carried out")
	zv.Assert(files().same(after), "exactly the files the flags ask for are created or changed")
	if toOut {
		zv.Assert(out == want, "the result goes to standard output")
		zv.Cover("stdout")
	} else {
		zv.Cover("file")
	}
}

// Bounds: expressions whose values are 200 strings of odd content (valid UTF-8 in JSON), alone, before or after another, from stdin or a file, in three output formats.
func P21_odd_values() {
	s := odd.Str("s")
	put("f", s)
	zv.SetStdin(s)
	format := zv.Choose("format", 3)
	zv.Assume(format < 2 || odd.Valid(s))
	args := []string{"--output-format", []string{"shell", "sexp", "json"}[format]}
	want := []edlisp.Value{edlisp.NewString(s)}
	n := edlisp.NewNumber(float64(len(s)))
	switch zv.Choose("others", 4) {
	case 0:
		args = append(args, "-e", "buffer-substring 1 -1")
	case 1:
		args = append(args, "-e", "buffer-size", "-e", "buffer-substring 1 -1")
		want = []edlisp.Value{n, want[0]}
	case 2:
		args = append(args, "-e", "buffer-substring 1 -1", "-e", "buffer-size")
		want = append(want, n)
	case 3:
		args = append(args, "-e", "concat "+strconv.Quote(s), "-e", "buffer-substring 1 -1")
		want = append(want, want[0])
	}
	if zv.Choose("file", 2) == 1 {
		args = append(args, at("f"))
	}
	before := files()
	err := edit(args...)
	out := zv.TakeStdout()
	zv.Assert(err == nil && files().same(before), "--expression never writes files")
	var got []edlisp.Value
	for _, l := range strings.Split(out, "\n") {
		if l == "" || strings.HasPrefix(l, "=== ") {
			continue
		}
		var p []edlisp.Value
		var perr error
		if format == 2 {
			p, perr = parser.ParseJSONString("[[\"v\"," + l + "]]")
		} else {
			p, perr = parser.ParseString("v " + l)
		}
		zv.Assert(perr == nil && len(p) == 1 && len(p[0].(*edlisp.List).Elements) == 2, "what is printed is a value in the output format")
		got = append(got, p[0].(*edlisp.List).Elements[1])
	}
	zv.Assert(equalAll(got, want), "the value of each expression is printed, in order")
	zv.Cover("values")
}
