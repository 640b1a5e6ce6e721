package hfile

import (
	"strconv"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/zv"
)

// big is text of up to 2 arbitrary bytes next to n bytes of short lines with wide characters.
func big(n int) string {
	fill := strings.Repeat("cd é\r\n", n/7+1)
	s := zv.Str("content", 2, "ab\n\x00")
	if zv.Bool("before") {
		return s + fill
	}
	return fill + s
}

// Bounds: one file of up to 2 bytes next to 9000 (thorough 140000) bytes; 5 kinds of scripts with a literal of up to 1 byte, alone or with 5000 more; single and batch calls, in two formats.
func P20_long() {
	content := big(tq(9000, 140000))
	lit := zv.Str("lit", 1, "x;")
	if zv.Bool("long literal") {
		lit += strings.Repeat("yz;", 1700)
	}
	s := []string{`insert "` + lit + `"`, "search-forward \"a\"\nreplace-match \"" + lit + `"`, `end-of-buffer; insert "` + lit + `"; search-forward "zz"`, `delete-char 1; nonsense`, `mark-whole-buffer; delete-region`}[zv.Choose("script", 5)]
	format := formats[zv.Choose("format", 2)]
	want, werr := exec(content, s, format)
	p := put("f", content)
	var err error
	if zv.Bool("batch") {
		res, e := editFiles([]string{p}, s, format)
		zv.Assert(e == nil && len(res) == 1 && res[0].Success == (res[0].Error == nil), "there is one result")
		err = res[0].Error
	} else {
		err = editFile(p, s, format)
	}
	got, ok := read(p)
	zv.Assert(ok && (err == nil) == (werr == nil), "an error is returned exactly when the script does not run through")
	if err != nil {
		zv.Assert(got == content, "a file whose script fails is left as it was")
		zv.Cover("failed")
	} else {
		zv.Assert(got == want, "the file holds exactly the edited text")
		zv.Cover("edited")
	}
}

// Bounds: batches of 70 (thorough 300) files of one byte each, of which one of 5 places is arbitrary or missing; a script that fails or succeeds depending on the content.
func P20_many() {
	n := tq(70, 300)
	at := []int{0, 1, n / 2, 64, n - 1}[zv.Choose("at", 5)]
	c := zv.StrN("c", 1, "ab")
	missing := zv.Bool("missing")
	var files []string
	for i := 0; i < n; i++ {
		p := zv.TempDir() + "/f" + strconv.Itoa(i)
		files = append(files, p)
		switch {
		case i != at:
			put("f"+strconv.Itoa(i), []string{"a", "b"}[i%2])
		case !missing:
			put("f"+strconv.Itoa(i), c)
		}
	}
	format := formats[zv.Choose("format", 2)]
	res, err := editFiles(files, `search-forward "a"; insert "x"`, format)
	zv.Assert(err == nil && len(res) == n, "there is one result per requested file")
	for i, p := range files {
		was := []string{"a", "b"}[i%2]
		if i == at {
			was = c
		}
		ok := was == "a" && !(missing && i == at)
		zv.Assert(res[i].Filename == p && res[i].Success == ok && (res[i].Error == nil) == ok, "results are in request order and truthful")
		got, is := read(p)
		if missing && i == at {
			zv.Assert(!is, "a missing file is not created")
			continue
		}
		want := was
		if ok {
			want = "ax"
		}
		zv.Assert(got == want, "each file holds its edited text, or is as it was")
	}
	zv.Cover("many")
}

// Bounds: a file of 130 or 1100 a's and one arbitrary byte, and with 130 (thorough 1100) another of 10 more a's; a script that replaces one a; loopUntilError true.
func P22_loop_long() {
	n := []int{130, 1100}[zv.Choose("size", 2)]
	a, b := strings.Repeat("a", n)+zv.StrN("c", 1, "ab"), strings.Repeat("a", n+10)
	list := []string{put("a", a)}
	if n <= tq(130, 1100) && zv.Bool("two") {
		list = append(list, put("b", b))
	}
	if zv.Bool("swap") && len(list) == 2 {
		list[0], list[1] = list[1], list[0]
	}
	text, isErr := callTool(tools.EditFileHandler, map[string]any{"script": `search-forward "a"; replace-match "b"`, "files": files(list), "loopUntilError": true})
	zv.Assert(!isErr, "an edit is answered with a report")
	total := strings.Count(a, "a")
	zv.Assert(strings.Contains(text, "after "+strconv.Itoa(total+1)+" iterations"), "the report gives the number of passes")
	edited := make([]bool, len(list))
	for i, f := range list {
		edited[i] = strings.HasSuffix(f, "/b")
	}
	report(text, list, edited)
	ga, _ := read(zv.TempDir() + "/a")
	zv.Assert(ga == strings.ReplaceAll(a, "a", "b"), "whole passes are repeated until one has a failure")
	if len(list) == 2 {
		gb, _ := read(zv.TempDir() + "/b")
		zv.Assert(gb == strings.Repeat("b", total+1)+strings.Repeat("a", n+10-total-1), "every pass covers all files")
		zv.Cover("two")
	}
	zv.Cover("long")
}

// Bounds: input of up to 2 bytes next to 9000 (thorough 140000) bytes; 3 scripts; both output modes.
func P22_eval_long() {
	input := big(tq(9000, 140000))
	s := []string{`end-of-buffer; insert "x"; buffer-substring 1 -1`, `re-search-forward "[ab]"; replace-match "y"; buffer-substring 2 -1`, `search-backward "c"; point`}[zv.Choose("script", 3)]
	args := map[string]any{"input": input, "script": s}
	want, err := texted.ExecuteScript(input, s)
	text, isErr := callTool(tools.TextedEvalHandler, args)
	zv.Assert(isErr == (err != nil) && (err != nil || text == want), "texted_eval returns the text ExecuteScript returns")
	if err == nil {
		zv.Cover("text")
	}
}

// Bounds: 70 (thorough 300) files of which one of 4 places is missing; one pass.
func P22_many() {
	n := tq(70, 300)
	at := []int{0, 64, n - 1, -1}[zv.Choose("at", 4)]
	var list []string
	edited := make([]bool, n)
	for i := 0; i < n; i++ {
		p := zv.TempDir() + "/f" + strconv.Itoa(i) + "."
		list = append(list, p)
		if edited[i] = i != at; edited[i] {
			put("f"+strconv.Itoa(i)+".", zv.StrN("c", i%64/63, "ab"))
		}
	}
	text, isErr := callTool(tools.EditFileHandler, map[string]any{"script": `insert "x"`, "files": files(list)})
	zv.Assert(!isErr, "an edit is answered with a report")
	report(text, list, edited)
	for i, p := range list {
		got, ok := read(p)
		zv.Assert(ok == edited[i] && (!ok || strings.HasPrefix(got, "x")), "the script is applied to every listed file")
	}
	zv.Cover("many")
}
