package hfile

import (
	"sort"

	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/zv"
	"github.com/mark3labs/mcp-go/mcp"
)

// Bounds: the three tools, made with a prefix of up to 2 arbitrary bytes; requests with all required parameters or all but one, or one of them of another type,
// with and without each optional one.
func P29_tools() {
	prefix := zv.Str("prefix", 2, zv.Any)
	k := zv.Choose("tool", 3)
	base := []string{"edit_file", "texted_eval", "texted_doc"}[k]
	mk := []func(string) mcp.Tool{tools.NewEditFileToolWithPrefix, tools.NewTextedEvalToolWithPrefix, tools.NewTextedDocToolWithPrefix}[k]
	h := []handler{tools.EditFileHandler, tools.TextedEvalHandler, tools.TextedDocHandler}[k]
	tool := mk(prefix)
	zv.Assert(tool.Name == prefix+base, "a tool is named by prefix and name")
	zv.Assert(tool.Description != "", "a tool is described")
	zv.Assert(tool.InputSchema.Type == "object", "the parameters are an object")
	var names []string
	for n := range tool.InputSchema.Properties {
		names = append(names, n)
	}
	sort.Strings(names)
	want := [][]string{{"files", "loopUntilError", "script"}, {"input", "output", "script"}, {"category", "function_name", "verbose"}}[k]
	zv.Assert(len(names) == len(want), "every parameter is declared once")
	for i := range want {
		zv.Assert(names[i] == want[i], "the parameters the tool reads are declared")
	}
	required := map[string]bool{}
	for _, n := range tool.InputSchema.Required {
		required[n] = true
	}
	f := put("f", "ab")
	good := map[string]any{"files": []any{f}, "loopUntilError": false, "script": `search-forward "a"`, "input": "a", "output": []string{"buffer", "expression"}[zv.Choose("out", 2)],
		"category": "search", "function_name": "point", "verbose": true}
	bad := map[string]any{"array": "f", "string": 1.0, "boolean": "x"}
	missing, wrong := zv.Choose("missing", len(names)+1)-1, zv.Choose("mistyped", len(names)+1)-1
	args := map[string]any{}
	reject := false
	for i, n := range names {
		decl, ok := tool.InputSchema.Properties[n].(map[string]any)
		zv.Assert(ok, "a parameter has a schema")
		typ, _ := decl["type"].(string)
		zv.Assert(bad[typ] != nil, "a parameter has a type")
		if i == missing || n == "category" && missing != 1 { // either a function or a category
			if required[n] {
				reject = true
			}
			continue
		}
		if i == wrong {
			args[n] = bad[typ]
			if required[n] {
				reject = true
			}
			zv.Assume(required[n])
			continue
		}
		args[n] = good[n]
	}
	_, isErr := callTool(h, args)
	zv.Assert(isErr == reject, "a request is rejected exactly when a required parameter is missing or of another type than declared")
	if reject {
		zv.Cover("rejected")
	} else {
		zv.Cover("accepted")
	}
}

// Bounds: pairs of requests that differ in one optional parameter, with strings and texts of up to 1 byte: each optional parameter of the declared type is read under its declared name.
func P29_optional() {
	f := put("f", "aa")
	lit := zv.Str("lit", 1, "ab")
	in := zv.StrN("input", 1, "ab")
	type pair struct {
		h    handler
		args map[string]any
		key  string
		val  any
	}
	ps := []pair{
		{tools.EditFileHandler, map[string]any{"script": `search-forward "a"; replace-match "` + lit + `b"`, "files": []any{f}}, "loopUntilError", true},
		{tools.TextedEvalHandler, map[string]any{"script": `insert "` + lit + `"; buffer-size`, "input": in}, "output", "expression"},
		{tools.TextedDocHandler, map[string]any{}, "category", []string{"search", "mark", "string"}[zv.Choose("category", 3)]},
		{tools.TextedDocHandler, map[string]any{}, "function_name", []string{"point", "insert", "nonsense"}[zv.Choose("function", 3)]},
		{tools.TextedDocHandler, map[string]any{}, "verbose", true},
	}
	p := ps[zv.Choose("pair", len(ps))]
	without, _ := callTool(p.h, p.args)
	put("f", "aa")
	zv.Assume(!(p.key == "loopUntilError" && lit == "a")) // would loop for ever
	p.args[p.key] = p.val
	with, _ := callTool(p.h, p.args)
	zv.Assert(without != with, "a declared optional parameter is read")
	delete(p.args, p.key)
	for _, k := range []string{"loop_until_error", "loop", "Output", "mode", "format", "name", "functionName", "Verbose", "detailed"} {
		p.args[k] = p.val
	}
	put("f", "aa")
	other, _ := callTool(p.h, p.args)
	zv.Assert(other == without, "an undeclared parameter is not read")
	zv.Cover("read")
}
