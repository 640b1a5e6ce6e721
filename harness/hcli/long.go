package hcli

import (
	"strconv"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/zv"
)

// big is text of up to 1 (thorough 2) arbitrary bytes next to n bytes of short lines with wide characters.
func big(n int) string {
	fill := strings.Repeat("cd é\r\n", n/7+1)
	s := zv.Str("content", tq(1, 2), "ab\n\x00")
	if zv.Bool("before") {
		return s + fill
	}
	return fill + s
}

// P21_long: big inputs, scripts and results.
//
// Bounds: one input of up to 1 (thorough 2) bytes next to 9000 (thorough 140000) bytes; stdin, --in-place with or without --backup, --output or stdout; 4 kinds of scripts given by -s (with an empty literal also by -f), with a literal of up to 1 byte, alone or with 5000 more.
func P21_long() {
	f := big(tq(9000, 140000))
	put("f", f)
	put("new", "old")
	zv.SetStdin(f)
	lit := zv.Str("lit", 1, "x;")
	if zv.Bool("long literal") {
		lit += strings.Repeat("yz;", 1700)
	}
	script := []string{`insert "` + lit + `"`, "search-forward \"a\"\nreplace-match \"" + lit + `"`, `end-of-buffer; insert "` + lit + `"; search-forward "zz"`, "mark-whole-buffer; delete-region"}[zv.Choose("script", 4)]
	args := []string{"-s", script}
	if lit == "" && zv.Bool("file") {
		put("script", script)
		args = []string{"-f", at("script")}
	}
	inPlace, output, backup := false, "", ""
	names := []string{"f"}
	switch zv.Choose("target", 5) {
	case 0:
		names = nil
	case 1:
		inPlace = true
		args = append(args, "-i")
	case 2:
		inPlace, backup = true, ".bak"
		args = append(args, "-i", "--backup", ".bak")
	case 3:
		output = "new"
		args = append(args, "-o", at("new"))
	}
	for _, n := range names {
		args = append(args, at(n))
	}
	p, opt := expect(files(), f, names, inPlace, false, output, backup, script, "shell")
	check(p, opt, edit(args...), zv.TakeStdout(), true)
	zv.Cover("long")
}

// P21_many: many files at once.
//
// Bounds: 70 (thorough 300) files of which one of 5 places is missing, arbitrary or fails; --in-place with or without --backup or --dry-run.
func P21_many() {
	n := tq(70, 300)
	i := []int{0, 1, n / 2, 64, n - 1}[zv.Choose("at", 5)]
	missing := zv.Bool("missing")
	var names []string
	for k := 0; k < n; k++ {
		name := "f" + strconv.Itoa(k) + "."
		names = append(names, name)
		if k != i {
			put(name, []string{"a", "ba", "cca"}[k%3])
		} else if !missing {
			put(name, zv.StrN("c", 1, "ab"))
		}
	}
	script := `search-forward "a"; replace-match "xy"`
	args := []string{"-i", "-s", script}
	backup := ""
	dry := false
	switch zv.Choose("mode", 3) {
	case 1:
		backup = ".bak"
		args = append(args, "--backup", backup)
	case 2:
		dry = true
		args = append(args, "-n")
	}
	before := files()
	p, opt := expect(before, "", names, true, dry, "", backup, script, "shell")
	for _, name := range names {
		args = append(args, at(name))
	}
	err := edit(args...)
	if dry {
		zv.Assert(files().same(before), "a dry run never changes anything")
		zv.Cover("dry")
		return
	}
	check(p, opt, err, zv.TakeStdout(), false)
	zv.Cover("many")
}

// P21_many_expressions: many expressions on one input.
//
// Bounds: 40 (thorough 200) expressions that edit and look, with an arbitrary byte in one of them; an input of up to 2 bytes from stdin or a file.
func P21_many_expressions() {
	n := tq(40, 200)
	f := zv.Str("f", 2, "ab")
	put("f", f)
	zv.SetStdin(f)
	zv.ExactFmt(true)
	i := []int{0, n / 2, n - 1}[zv.Choose("at", 3)]
	var args, want []string
	text := ""
	for k := 0; k < n; k++ {
		c := "c"
		if k == i {
			c = zv.StrN("c", 1, "ad ")
		}
		if k%2 == 0 {
			args = append(args, "-e", `insert "`+c+`"`)
			text += c
			want = append(want, "")
			continue
		}
		args = append(args, "-e", `concat (buffer-substring 1 -1) "`+c+`"`)
		want = append(want, text+f+c)
	}
	if zv.Bool("file") {
		args = append(args, at("f"))
	}
	zv.Assert(edit(args...) == nil, "the expressions run through")
	k := 0
	for _, l := range strings.Split(strings.TrimRight(zv.TakeStdout(), "\n"), "\n") {
		got, err := parser.ParseString("concat " + l)
		zv.Assert(err == nil && k < len(want), "one value is printed for each expression")
		if want[k] != "" {
			s, serr := texted.ExecuteScript("", "insert "+l)
			zv.Assert(len(got) == 1 && serr == nil && s == want[k], "the value of each expression is printed, in order")
		}
		k++
	}
	zv.Assert(k == len(want), "a value is printed for every expression")
	zv.Cover("values")
}
