package hfile

import (
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/zv"
)

// near makes a script of one of 9 shapes around a literal, and its format.
func near(label, lit string) (script, format string) {
	return shape(zv.Choose(label, 9), lit)
}

func shape(k int, lit string) (script, format string) {
	return []string{`insert "` + lit + `"`, `(insert "` + lit + `")`, `[["insert","` + lit + `"]]`, ` insert "` + lit + `" `, `search-forward "` + lit + `"; replace-match "x"`,
			`insert "` + lit + `"; nonsense`, `insert "` + lit, `re-search-forward "` + lit + `|$"; replace-match "x"`, `search-forward "` + lit + `"; replace-match "y"`}[k],
		[]string{"shell", "sexp", "json", "shell", "sexp", "shell", "shell", "shell", "sexp"}[k]
}

func same(a []string, ai []int, b []string, bi []int) bool {
	if len(a) != len(b) || len(ai) != len(bi) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	for i := range ai {
		if ai[i] != bi[i] {
			return false
		}
	}
	return true
}

func flag(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Bounds: text of up to 2 (thorough 3) bytes of "ab "; scripts of 9 shapes with a literal of up to 2 bytes of "ab ", in a process of its own and after
// another such script with a literal of up to 1 byte was executed on another text.
func P25_scripts() {
	text := zv.Str("text", tq(2, 3), "ab ")
	s, f := near("B", zv.Str("lit", 2, "ab "))
	run := func() ([]string, []int) {
		out, err := texted.ExecuteScriptWithFormat(text, s, f)
		if err != nil {
			return []string{out, err.Error()}, []int{1}
		}
		return []string{out}, []int{0}
	}
	ts, is := zv.Fork(run)
	s2, f2 := near("A", zv.Str("lit2", tq(1, 2), "ab "))
	texted.ExecuteScriptWithFormat([]string{"ba", "a b"}[zv.Choose("other text", 2)], s2, f2)
	ts2, is2 := run()
	zv.Assert(same(ts, is, ts2, is2), "a script does the same in a fresh process and after other scripts")
	zv.Cover("compared")
}

// Bounds: requests to the eval tool with input of up to 2 bytes of "ab " and a script of 9 shapes with a literal of up to 1 byte, for the buffer or the last value, in a process of its own and after another such request.
func P25_requests() {
	request := func(label string, n int) func() ([]string, []int) {
		s, _ := near(label, zv.Str(label+" lit", 1, "ab "))
		args := map[string]any{"input": zv.Str(label+" input", n, "ab "), "script": s}
		if zv.Bool(label + " expression") {
			args["output"] = "expression"
		}
		return func() ([]string, []int) {
			text, isErr := callTool(tools.TextedEvalHandler, args)
			return []string{text}, []int{flag(isErr)}
		}
	}
	b := request("B", 2)
	ts, is := zv.Fork(b)
	request("A", 1)()
	ts2, is2 := b()
	zv.Assert(same(ts, is, ts2, is2), "a request is answered the same in a fresh process and after other requests")
	zv.Cover("compared")
}

// Bounds: a file of up to 2 bytes of "ab " edited by a script of 9 shapes with a literal of up to 1 byte, in a process of its own and after the same file, with another content of up to 2 bytes,
// or another file was edited by another such script.
func P25_files() {
	text := zv.Str("text", 2, "ab ")
	s, f := near("B", zv.Str("lit", 1, "ab "))
	run := func() ([]string, []int) {
		put("a", text)
		err := texted.EditFileWithFormat(zv.TempDir()+"/a", s, f)
		c, _ := read(zv.TempDir() + "/a")
		return []string{c}, []int{flag(err == nil)}
	}
	ts, is := zv.Fork(run)
	other := []string{"a", "b"}[zv.Choose("other", 2)]
	put(other, zv.Str("text2", 2, "ab"))
	s2, f2 := near("A", zv.Str("lit2", 1, "a"))
	texted.EditFileWithFormat(zv.TempDir()+"/"+other, s2, f2)
	ts2, is2 := run()
	zv.Assert(same(ts, is, ts2, is2), "an edit does the same in a fresh process and after other edits")
	zv.Cover("compared")
}

// nearLits makes two literals of n bytes or one more or less that differ at one of 3 places.
func nearLits() (a, b string) {
	n := []int{3, 8, 15, 16, 17, 31, 33, 64, 65, 129, 257, 1025}[zv.Choose("size", 12)]
	a = strings.Repeat("abcde", n/5+1)[:n]
	i := []int{0, n / 2, n - 2}[zv.Choose("at", 3)]
	switch zv.Choose("how", 3) {
	case 0:
		b = a[:i] + "x" + a[i+1:]
	case 1:
		b = a[:i] + a[i+1:]
	case 2:
		b = a[:i] + a[i+1:i+2] + a[i:i+1] + a[i+2:]
	}
	if zv.Choose("swapped", 2) == 1 {
		a, b = b, a
	}
	return
}

// Bounds: two scripts of one of 9 shapes around two literals of 12 lengths from 3 to 1025 that differ by a changed, a dropped or two swapped bytes at one of 3 places; the second one is executed on a text that holds its literal
// or the first one's after one arbitrary byte, in a process of its own and after the first one, through ExecuteScriptWithFormat, EditFileWithFormat or the eval tool.
func P25_keys() {
	a, lit := nearLits()
	k := zv.Choose("shape", 9)
	s, f := shape(k, lit)
	s2, f2 := shape(k, a)
	text := zv.StrN("text", 1, "a ") + []string{lit, a}[zv.Choose("holds", 2)]
	how := zv.Choose("how to run", 3)
	run := func(text, s, f string) ([]string, []int) {
		switch how {
		case 0:
			out, err := texted.ExecuteScriptWithFormat(text, s, f)
			return []string{out}, []int{flag(err != nil)}
		case 1:
			put("a", text)
			err := texted.EditFileWithFormat(zv.TempDir()+"/a", s, f)
			c, _ := read(zv.TempDir() + "/a")
			return []string{c}, []int{flag(err != nil)}
		}
		out, isErr := callTool(tools.TextedEvalHandler, map[string]any{"input": text, "script": s})
		return []string{out}, []int{flag(isErr)}
	}
	ts, is := zv.Fork(func() ([]string, []int) { return run(text, s, f) })
	run(text, s2, f2)
	run(a+" ", s, f)
	ts2, is2 := run(text, s, f)
	zv.Assert(same(ts, is, ts2, is2), "a script does the same in a fresh process and after similar scripts and texts")
	zv.Cover("compared")
}

// runText runs a script on a text in one of 8 ways.
func runText(how int, text, script, format string) ([]string, []int) {
	switch how {
	case 0:
		out, err := texted.ExecuteScriptWithFormat(text, script, format)
		if err != nil {
			return []string{out, err.Error()}, []int{1}
		}
		return []string{out}, []int{0}
	case 1:
		out, err := texted.ExecuteScript(text, script)
		return []string{out}, []int{flag(err != nil)}
	case 2:
		put("a", text)
		err := texted.EditFileWithFormat(zv.TempDir()+"/a", script, format)
		c, _ := read(zv.TempDir() + "/a")
		return []string{c}, []int{flag(err != nil)}
	case 3:
		put("a", text)
		err := texted.EditFile(zv.TempDir()+"/a", script)
		c, _ := read(zv.TempDir() + "/a")
		return []string{c}, []int{flag(err != nil)}
	case 4:
		out, isErr := callTool(tools.TextedEvalHandler, map[string]any{"input": text, "script": script})
		return []string{out}, []int{flag(isErr)}
	case 5:
		out, isErr := callTool(tools.TextedEvalHandler, map[string]any{"input": text, "script": script, "output": "expression"})
		return []string{out}, []int{flag(isErr)}
	case 6:
		put("a", text)
		_, isErr := callTool(tools.EditFileHandler, map[string]any{"files": []any{zv.TempDir() + "/a"}, "script": script})
		c, _ := read(zv.TempDir() + "/a")
		return []string{c}, []int{flag(isErr)}
	}
	put("a", text)
	rs, err := texted.EditFilesWithFormat([]string{zv.TempDir() + "/a"}, script, format)
	c, _ := read(zv.TempDir() + "/a")
	return []string{c}, []int{len(rs), flag(len(rs) == 1 && rs[0].Success), flag(err == nil)}
}

// Bounds: one of 11 scripts run under one of 4 format names on a text of up to 1 byte of "ab", in a process of its own and after the same script was run under another format name, in two ways to run it.
func P25_formats() {
	scripts := []string{`[["insert","a"]]`, `insert "a"`, `(insert "a")`, ``, `[]`, `[["insert"`, `(insert "a"`, `insert a`, "insert \"a\"\n", `[["search-forward","a"],["replace-match","b"]]`, "(insert \"a\")\n(insert \"b\")"}
	formats := []string{"shell", "sexp", "json", "other"}
	s := scripts[zv.Choose("script", len(scripts))]
	f, f2 := formats[zv.Choose("format", 4)], formats[zv.Choose("format2", 4)]
	how, how2 := []int{0, 2, 7}[zv.Choose("how", 3)], []int{0, 2}[zv.Choose("how2", 2)]
	text := zv.Str("text", 1, "ab")
	ts, is := zv.Fork(func() ([]string, []int) { return runText(how, text, s, f) })
	runText(how2, "a", s, f2)
	ts2, is2 := runText(how, text, s, f)
	zv.Assert(same(ts, is, ts2, is2), "a script does the same in a fresh process and after it was run in another format")
	zv.Cover("compared")
}

// Bounds: a script that depends on point, mark, the remembered match or the text (10), run in one of 8 ways on one of 4 texts, in a process of its own and after one of 7 scripts that leave a point, mark, match or error behind was run in one of 8 ways on one of 4 texts.
func P25_leftovers_of_scripts() {
	first := []string{`search-forward "a"`, `end-of-buffer; search-backward "a"; insert "b"`, "re-search-forward \"[ab]\"; set-mark; no-such", "mark-whole-buffer", `goto-char 2; set-mark; end-of-buffer; search-forward "q"`, `insert "a"; insert "`, `search-forward "a"; replace-match "zzz"; set-mark`}
	second := []string{`replace-match "z"`, `insert "z"`, "delete-region", `exchange-point-and-mark; insert "z"`, "point", "mark", `search-forward "a"; replace-match "z"`, "buffer-substring 1 (point-max)", `replace-region "z"; region-end`, ""}
	texts := []string{"", "a", "ab", "baa"}
	how, how2 := zv.Choose("how", 8), zv.Choose("how2", 8)
	s, s2 := second[zv.Choose("B", len(second))], first[zv.Choose("A", len(first))]
	text, text2 := texts[zv.Choose("text", 4)], texts[zv.Choose("text2", 4)]
	zv.Assume(zv.Tier() > 0 || (how+how2+len(s)+len(s2)+len(text)+len(text2))%4 == 0)
	ts, is := zv.Fork(func() ([]string, []int) { return runText(how, text, s, "shell") })
	runText(how2, text2, s2, "shell")
	ts2, is2 := runText(how, text, s, "shell")
	zv.Assert(same(ts, is, ts2, is2), "a script does the same in a fresh process and after scripts that left a point, mark, match or error behind")
	zv.Cover("compared")
}
