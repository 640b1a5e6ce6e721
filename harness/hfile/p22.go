package hfile

import (
	"context"
	"os"
	"path/filepath"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/zv"
	"github.com/mark3labs/mcp-go/mcp"
)

type handler func(context.Context, mcp.CallToolRequest) (*mcp.CallToolResult, error)

// callTool calls a tool; the answer is one text.
func callTool(h handler, args any) (text string, isErr bool) {
	var req mcp.CallToolRequest
	req.Params.Arguments = args
	res, err := h(context.Background(), req)
	zv.Assert(err == nil && res != nil, "a tool call is answered")
	zv.Assert(len(res.Content) == 1, "the answer has one content item")
	t, ok := res.Content[0].(mcp.TextContent)
	zv.Assert(ok, "the answer is text")
	return t.Text, res.IsError
}

// Bounds: input of up to 3 (thorough 4) arbitrary bytes; the 7 shell scripts of P20 (unparsable and failing ones included) with a literal of up to 2 bytes; output mode absent or "buffer".
func P22_eval_buffer() {
	input := zv.Str("input", tq(3, 4), zv.Any)
	s := script("shell", zv.Str("lit", 2, "a;() "))
	args := map[string]any{"input": input, "script": s}
	if zv.Bool("mode") {
		args["output"] = "buffer"
	}
	want, err := texted.ExecuteScript(input, s)
	text, isErr := callTool(tools.TextedEvalHandler, args)
	zv.Assert(isErr == (err != nil), "the result is an error exactly when execution fails")
	if err == nil {
		zv.Assert(text == want, "texted_eval returns the text ExecuteScript returns")
		zv.Cover("text")
	} else {
		zv.Assert(text != "", "an error result says what failed")
		zv.Cover("error")
	}
}

// Bounds: input of up to 3 arbitrary bytes; 14 scripts of one or two instructions ending in a string, number, symbol or failing one, string literals of up to 2 bytes.
func P22_eval_expression() {
	input := zv.Str("input", tq(2, 3), zv.Any)
	lit := zv.Str("lit", 1, "a;() ")
	s := []string{
		"", `upcase "` + lit + `"`, `(concat "` + lit + `" "\"\n")`, "forward-char 1; point", "buffer-size", `insert "x"; buffer-substring 1 -1`,
		`looking-at "a"`, `string-match "b" "` + lit + `"`, `string-match "a" "` + lit + `"`, `insert "` + lit + `"`, `point; search-forward "zz"`, `(point) (mark`, "nonsense", "length \"" + lit + "\"",
	}[zv.Choose("script", 14)]
	text, isErr := callTool(tools.TextedEvalHandler, map[string]any{"input": input, "script": s, "output": "expression"})
	var v edlisp.Value
	prog, err := parser.ParseString(s)
	if err == nil {
		v, err = edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(input))
	}
	zv.Assert(isErr == (err != nil), "the result is an error exactly when execution fails")
	if err != nil {
		zv.Cover("error")
		return
	}
	back, err := parser.ParseSexp(text)
	zv.Assert(err == nil && len(back) == 1 && edlisp.Equal(back[0], v), "expression mode returns the last value as an s-expression")
	zv.Cover("value")
}

// Bounds: every combination of input, script and output parameter being absent, a string, a number or a list; an unknown output mode of up to 2 letters; arguments that are no map.
func P22_eval_shape() {
	arg := func(m map[string]any, key, val string) bool {
		switch zv.Choose(key, 4) {
		case 0:
			m[key] = val
			return true
		case 1:
			m[key] = 12.0
		case 2:
			m[key] = []any{val}
		}
		return false
	}
	m := map[string]any{}
	okInput := arg(m, "input", "text")
	okScript := arg(m, "script", `insert "x"`)
	mode := zv.Str("mode", 2, "bu")
	if zv.Bool("bad mode") {
		m["output"] = mode
	} else {
		mode = "buffer"
	}
	if zv.Bool("no map") {
		_, isErr := callTool(tools.TextedEvalHandler, []any{"text", `insert "x"`})
		zv.Assert(isErr, "arguments of another shape are an error")
		return
	}
	text, isErr := callTool(tools.TextedEvalHandler, m)
	zv.Assert(isErr != (okInput && okScript && mode == "buffer"), "a missing or mistyped parameter or an unknown output mode is an error result")
	if !isErr {
		zv.Assert(text == "xtext", "texted_eval returns the edited text")
		zv.Cover("ok")
	} else {
		zv.Cover("error")
	}
}

// report checks that the report has exactly the given verdict for each file, in a line of its own.
func report(text string, files []string, edited []bool) {
	lines := strings.Split(text, "\n")
	used := make([]bool, len(lines))
	for i, f := range files {
		found := false
		for k, l := range lines {
			if used[k] || found {
				continue
			}
			if edited[i] && strings.Contains(l, "Successfully edited "+f) || !edited[i] && strings.Contains(l, "Failed to edit "+f+":") {
				used[k], found = true, true
			}
		}
		zv.Assert(found, "the report names every file as edited or failed, truthfully")
	}
	for k, l := range lines {
		zv.Assert(used[k] || !strings.Contains(l, "Successfully edited") && !strings.Contains(l, "Failed to edit"), "the report names each file once")
	}
}

func files(l []string) any {
	if zv.Bool("strings") {
		return l
	}
	var a []any
	for _, f := range l {
		a = append(a, f)
	}
	return a
}

// Bounds: 1..3 entries out of two files of up to 2 and 1 bytes of "ab" and a missing file, repetitions allowed (but not after a failed write); 5 scripts; loopUntilError absent, false or mistyped; a write limit of 0..3 bytes or none.
func P22_edit_files() {
	s := []string{`insert "a"`, `search-forward "a"; replace-match "bb"`, `(insert "x") (search-forward "zz")`, `insert "a`, `mark-whole-buffer; delete-region`}[zv.Choose("script", 5)]
	model := map[string]string{}
	a, b := zv.TempDir()+"/a", zv.TempDir()+"/b"
	model[a], model[b] = zv.Str("a", 2, "ab"), zv.Str("b", 1, "ab")
	put("a", model[a])
	put("b", model[b])
	targets := []string{a, b, zv.TempDir() + "/missing"}
	var list []string
	for i := 1 + zv.Choose("n", 3); i > 0; i-- {
		list = append(list, targets[zv.Choose("file", 3)])
	}
	args := map[string]any{"script": s, "files": files(list)}
	switch zv.Choose("loop", 3) {
	case 0:
		args["loopUntilError"] = false
	case 1:
		args["loopUntilError"] = "maybe"
	}
	limit := zv.Choose("limit", 5) - 1
	if limit >= 0 {
		zv.FailWritesAfter(limit)
	}
	text, isErr := callTool(tools.EditFileHandler, args)
	zv.FailWritesAfter(-1)
	zv.Assert(!isErr, "an edit is answered with a report")
	edited := make([]bool, len(list))
	broken := map[string]bool{}
	for i, f := range list {
		zv.Assume(!broken[f]) // what a failed write leaves is P20's business
		c, ok := model[f]
		if ok {
			out, err := texted.ExecuteScript(c, s)
			if ok = err == nil; ok && limit >= 0 && len(out) > limit {
				ok = false
				broken[f] = true
				zv.Cover("write failed")
			}
			if ok {
				model[f] = out
			}
		}
		edited[i] = ok
	}
	report(text, list, edited)
	ga, _ := read(a)
	gb, _ := read(b)
	zv.Assert((broken[a] || ga == model[a]) && (broken[b] || gb == model[b]), "the script is applied to every listed file as EditFiles does")
	zv.Assert(names() == "a|b|", "no other file is created")
	zv.Cover("report")
}

// Bounds: 1..3 entries out of two files of up to 3 and 2 bytes of "ab" and a missing one; 3 scripts that consume the text or an "a" or fail; loopUntilError true.
func P22_loop() {
	s := []string{`search-forward "a"; replace-match "b"`, `re-search-forward "[ab]"; replace-match ""`, `nonsense`}[zv.Choose("script", 3)]
	model := map[string]string{}
	a, b := zv.TempDir()+"/a", zv.TempDir()+"/b"
	model[a], model[b] = zv.Str("a", 3, "ab"), zv.Str("b", 2, "ab")
	put("a", model[a])
	put("b", model[b])
	targets := []string{a, b, zv.TempDir() + "/missing"}
	var list []string
	for i := 1 + zv.Choose("n", 3); i > 0; i-- {
		list = append(list, targets[zv.Choose("file", 3)])
	}
	text, isErr := callTool(tools.EditFileHandler, map[string]any{"script": s, "files": files(list), "loopUntilError": true})
	zv.Assert(!isErr, "an edit is answered with a report")
	passes := 0
	edited := make([]bool, len(list))
	for failed := false; !failed; {
		passes++
		for i, f := range list {
			c, ok := model[f]
			if ok {
				out, err := texted.ExecuteScript(c, s)
				if ok = err == nil; ok {
					model[f] = out
				}
			}
			edited[i] = ok
			failed = failed || !ok
		}
	}
	zv.Assert(strings.Contains(text, "after "+string(rune('0'+passes))+" iterations"), "the report gives the number of passes")
	report(text, list, edited)
	ga, _ := read(a)
	gb, _ := read(b)
	zv.Assert(ga == model[a] && gb == model[b], "whole passes are repeated until one has a failure")
	if passes > 2 {
		zv.Cover("several")
	}
}

// Bounds: script and files absent, of the right or another type, files empty or with an element that is no string; one file.
func P22_edit_shape() {
	f := put("f", "text")
	args := map[string]any{}
	ok := true
	switch zv.Choose("script", 3) {
	case 0:
		args["script"] = `insert "x"`
	case 1:
		args["script"] = 3.0
		ok = false
	case 2:
		ok = false
	}
	switch zv.Choose("files", 6) {
	case 0:
		args["files"] = []any{f}
	case 1:
		args["files"] = []string{f}
	case 2:
		args["files"] = []any{}
		ok = false
	case 3:
		args["files"] = []any{f, 1.0}
		ok = false
	case 4:
		args["files"] = f
		ok = false
	case 5:
		ok = false
	}
	_, isErr := callTool(tools.EditFileHandler, args)
	zv.Assert(isErr != ok, "a missing or mistyped parameter is an error result")
	got, _ := read(f)
	if ok {
		zv.Assert(got == "xtext", "the file is edited")
		zv.Cover("edited")
	} else {
		zv.Assert(got == "text", "a rejected request changes nothing")
		zv.Cover("rejected")
	}
}

// Bounds: one or two of 18 odd file names, which may mean the same file, of files of up to 1 byte of "ab" that exist or not; the report names each as requested.
func P22_names() {
	ns := oddNames()
	os.Mkdir(zv.TempDir()+"/sub", 0755)
	list := []string{ns[zv.Choose("first", len(ns))], ns[zv.Choose("second", len(ns))]}
	model := map[string]string{}
	for i, n := range list {
		if i == 0 || zv.Choose("second exists", 2) == 1 {
			c := zv.Str("c", 1, "ab")
			zv.Assert(os.WriteFile(n, []byte(c), 0644) == nil, "scratch file cannot be written")
			model[filepath.Clean(n)] = c
		}
	}
	text, isErr := callTool(tools.EditFileHandler, map[string]any{"script": `search-forward "a"; insert "x"`, "files": list})
	zv.Assert(!isErr, "an edit is answered with a report")
	for _, n := range list {
		c, ok := model[filepath.Clean(n)]
		out, err := texted.ExecuteScript(c, `search-forward "a"; insert "x"`)
		verdict := "Failed to edit " + n + ":"
		if ok && err == nil {
			model[filepath.Clean(n)] = out
			verdict = "Successfully edited " + n + "\n"
			zv.Cover("edited")
		}
		i := strings.Index(text, verdict)
		zv.Assert(i >= 0, "the report names every file as edited or failed, truthfully")
		text = text[:i] + text[i+len(verdict):]
	}
	zv.Assert(!strings.Contains(text, "Successfully edited ") && !strings.Contains(text, "Failed to edit "), "the report names each file once")
	for n, c := range model {
		got, _ := read(n)
		zv.Assert(got == c, "the script is applied to every listed file as EditFiles does")
	}
}

// Bounds: two or three requests to the eval tool in a row, each of one of 8 scripts that depend on or leave behind a point, mark, match or error, on one of 4 texts, for the buffer or the last value; each compared with the library's answer.
func P22_eval_in_a_row() {
	scripts := []string{`search-forward "a"`, "re-search-forward \"[ab]\"; end-of-buffer; set-mark", "goto-char 2; set-mark; no-such", `replace-match "z"`, `insert "z"; mark`, "delete-region", `exchange-point-and-mark; insert "z"`, `insert "`}
	texts := []string{"", "a", "ab", "baa"}
	for i := tq(2, 3); i > 0; i-- {
		s, text := scripts[zv.Choose("script", 8)], texts[zv.Choose("text", 4)]
		args := map[string]any{"input": text, "script": s}
		expr := zv.Choose("expression", 2) == 1
		var v edlisp.Value
		want, err := texted.ExecuteScript(text, s)
		if expr {
			args["output"] = "expression"
			if prog, e := parser.ParseString(s); e == nil {
				v, _ = edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(text))
			}
		}
		got, isErr := callTool(tools.TextedEvalHandler, args)
		zv.Assert(isErr == (err != nil), "the result is an error exactly when execution fails")
		if err != nil {
			zv.Cover("error")
			continue
		}
		if expr {
			back, err := parser.ParseSexp(got)
			zv.Assert(err == nil && len(back) == 1 && edlisp.Equal(back[0], v), "expression mode returns the last value as an s-expression")
			zv.Cover("value")
			continue
		}
		zv.Assert(got == want, "texted_eval returns the text ExecuteScript returns")
		zv.Cover("text")
	}
}
