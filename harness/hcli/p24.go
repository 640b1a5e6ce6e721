package hcli

import (
	"fmt"
	"strings"

	"github.com/dhamidi/texted/commands"
	"github.com/dhamidi/texted/zzverif/zv"
)

// P24_command: the test command reports each case as its verdict is, counts
// them, and exits 1 exactly when a case did not pass.
//
// Bounds: 1..2 (thorough 3) files of 4 kinds, passing, failing or missing; 6 flags.
func P24_command() {
	n := zv.Choose("cases", tq(2, 3)) + 1
	names := []string{"one.xml", "two.xml", "three.xml"}
	var args, lines []string
	var passed []bool
	fails := 0
	for i := 0; i < n; i++ {
		out := zv.Str(fmt.Sprintf("output %d", i), 1, "ab")
		ok := out == "a"
		switch k := zv.Choose("kind", 4); k {
		case 0:
			args = append(args, put(names[i], "<buffer></buffer><input lang=\"shell\">\ninsert \"a\"\n</input><output>"+out+"</output>"))
		case 1:
			args = append(args, put(names[i], "<buffer>a</buffer><input lang=\"shell\">\nbuffer-substring 1 2\n</input><result>\""+out+"\"</result>"))
		case 2:
			args = append(args, put(names[i], "<buffer>a</buffer><input lang=\"shell\">\nnope\n</input><output>"+out+"</output>"))
			ok = false
		case 3:
			args, ok = append(args, at(names[i])), false // missing
		}
		passed = append(passed, ok)
		if ok {
			lines = append(lines, "[PASS] "+names[i])
		} else {
			lines = append(lines, "[FAIL] "+names[i])
			fails++
		}
	}
	flag := []string{"", "--quiet", "--fail-only", "--verbose", "--trace", "--include=one"}[zv.Choose("flag", 6)]
	total := n
	switch flag {
	case "--quiet":
		lines = nil
	case "--fail-only":
		var l []string
		for i, x := range lines {
			if !passed[i] {
				l = append(l, x)
			}
		}
		lines = l
	case "--include=one":
		lines, total, fails = lines[:1], 1, 0
		if !passed[0] {
			fails = 1
		}
	}
	lines = append(lines, fmt.Sprintf("%d passed, %d failed, %d total", total-fails, fails, total))
	if flag != "" {
		args = append([]string{flag}, args...)
	}
	if fails > 0 {
		zv.Cover("a failing case")
		zv.ExpectExit(1, lines...)
	}
	zv.Assert(runCmd(commands.NewTestCommand(), args) == nil, "the test command runs")
	zv.Assert(fails == 0, "a failing case makes the command exit with 1")
	zv.Cover("all pass")
	out := zv.TakeStdout()
	for _, l := range lines {
		i := strings.Index(out, l)
		zv.Assert(i >= 0, "each case and the summary are reported in order")
		out = out[i+len(l):]
	}
}

// P24_include: --include selects the cases of which the file name matches one of the patterns.
//
// Bounds: 4 files of which one or none fails; one or two of 6 patterns.
func P24_include() {
	names := []string{"one.xml", "two.xml", "onetwo.xml", "three.xml"}
	bad := zv.Choose("failing", 5)
	var args []string
	for i, n := range names {
		c := "a"
		if i == bad {
			c = "b"
		}
		args = append(args, put(n, "<buffer></buffer><input lang=\"shell\">\ninsert \"a\"\n</input><output>"+c+"</output>"))
	}
	match := map[string][]string{"one": {"one.xml", "onetwo.xml"}, "^two": {"two.xml"}, "t.*o": {"two.xml", "onetwo.xml"}, "xml$": names, "nope": nil, "^one\\.": {"one.xml"}}
	patterns := []string{"one", "^two", "t.*o", "xml$", "nope", "^one\\."}
	var flags []string
	chosen := map[string]bool{}
	for i := 1 + zv.Choose("more", 2); i > 0; i-- {
		p := patterns[zv.Choose("pattern", len(patterns))]
		flags = append(flags, []string{"--include", "-i"}[i-1], p)
		for _, n := range match[p] {
			chosen[n] = true
		}
	}
	var lines []string
	passed, failed := 0, 0
	for i, n := range names {
		switch {
		case !chosen[n]:
		case i == bad:
			failed++
			lines = append(lines, "[FAIL] "+n+"\n")
		default:
			passed++
			lines = append(lines, "[PASS] "+n+"\n")
		}
	}
	if passed+failed > 0 {
		lines = append(lines, fmt.Sprintf("%d passed, %d failed, %d total\n", passed, failed, passed+failed))
	}
	args = append(flags, args...)
	if failed > 0 {
		zv.Cover("failing")
		zv.ExpectExit(1, lines...)
	}
	zv.Assert(runCmd(commands.NewTestCommand(), args) == nil && failed == 0, "a failing case makes the command exit with 1")
	out := zv.TakeStdout()
	zv.Assert(strings.Count(out, "[PASS]") == passed && strings.Count(out, "[FAIL]") == 0, "exactly the selected cases are reported")
	for _, l := range lines {
		zv.Assert(strings.Contains(out, l), "each selected case and the summary are reported")
	}
	zv.Cover("included")
}

// P24_many: many cases at once.
//
// Bounds: 70 (thorough 300) files of which one at 5 places, or none, may fail.
func P24_many() {
	n := tq(70, 300)
	at := []int{0, 9, 64, n - 1, -1}[zv.Choose("at", 5)]
	var args, lines []string
	fails := 0
	for i := 0; i < n; i++ {
		c := "a"
		if i == at {
			c = zv.StrN("c", 1, "ab")
		}
		name := fmt.Sprintf("t%d.xml", i)
		args = append(args, put(name, "<buffer></buffer><input lang=\"shell\">\ninsert \"a\"\n</input><output>"+c+"</output>"))
		if c == "a" {
			lines = append(lines, "[PASS] "+name+"\n")
		} else {
			lines = append(lines, "[FAIL] "+name+"\n")
			fails++
		}
	}
	lines = append(lines, fmt.Sprintf("%d passed, %d failed, %d total", n-fails, fails, n))
	if fails > 0 {
		zv.ExpectExit(1, lines...)
	}
	zv.Assert(runCmd(commands.NewTestCommand(), args) == nil && fails == 0, "a failing case makes the command exit with 1")
	out := zv.TakeStdout()
	for _, l := range lines {
		i := strings.Index(out, l)
		zv.Assert(i >= 0, "each case and the summary are reported in order")
		out = out[i+len(l):]
	}
	zv.Cover("many")
}
