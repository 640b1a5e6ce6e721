package hfile

import (
	"sort"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/zv"
)

// functions lists the default environment's functions.
func functions() []string {
	var out []string
	for n := range edlisp.NewDefaultEnvironment().Functions {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func sameDoc(a, b edlisp.FunctionDoc) bool {
	if a.Name != b.Name || a.Summary != b.Summary || a.Description != b.Description || a.Category != b.Category {
		return false
	}
	if len(a.Parameters) != len(b.Parameters) || len(a.Examples) != len(b.Examples) || len(a.SeeAlso) != len(b.SeeAlso) {
		return false
	}
	for i := range a.Parameters {
		if a.Parameters[i] != b.Parameters[i] {
			return false
		}
	}
	for i := range a.Examples {
		if a.Examples[i] != b.Examples[i] {
			return false
		}
	}
	for i := range a.SeeAlso {
		if a.SeeAlso[i] != b.SeeAlso[i] {
			return false
		}
	}
	return true
}

func sameDocs(a, b []edlisp.FunctionDoc) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameDoc(a[i], b[i]) {
			return false
		}
	}
	return true
}

// knownFunctions are the functions the other properties' harnesses enumerate.
const knownFunctions = "backward-char backward-kill-word backward-word beginning-of-buffer beginning-of-line buffer-size buffer-substring capitalize concat current-column " +
	"delete-backward-char delete-char delete-line delete-region downcase end-of-buffer end-of-line exchange-point-and-mark forward-char forward-word goto-char goto-line insert " +
	"kill-line kill-word length line-number-at-pos looking-at looking-back mark mark-line mark-whole-buffer mark-word point point-max point-min re-search-backward re-search-forward " +
	"region-beginning region-end replace-match replace-regexp-in-string replace-region search-backward search-forward set-mark set-mark-command string-match substring upcase"

// Bounds: all functions; every pair of the 5 map iteration orders the engine offers.
func P23_registry() {
	zv.MapOrder(zv.Choose("order", zv.MapOrders()))
	fns := functions()
	all := edlisp.GetAllDocumentation()
	zv.Assert(len(all) == len(fns) && edlisp.GetRegisteredFunctionCount() == len(fns), "there is exactly one documentation entry per function")
	have := " " + strings.Join(fns, " ") + " "
	for _, f := range strings.Fields(knownFunctions) {
		zv.Assert(strings.Contains(have, " "+f+" "), "the documented built-in functions are all there")
	}
	for i, f := range fns {
		zv.Assert(all[i].Name == f, "all functions are documented, in alphabetical order")
		d, ok := edlisp.GetDocumentation(f)
		zv.Assert(ok && sameDoc(d, all[i]), "a lookup returns the function's entry")
		zv.Assert(d.Summary != "" && d.Description != "" && d.Category != "", "an entry says what the function does and its category")
		for _, s := range d.SeeAlso {
			_, ok := edlisp.GetDocumentation(s)
			zv.Assert(ok, "related functions exist: "+f+" "+s)
		}
	}
	cats := edlisp.GetCategories()
	total := 0
	for i, c := range cats {
		zv.Assert(i == 0 || cats[i-1] < c, "categories are listed once, sorted")
		docs := edlisp.GetDocumentationByCategory(c)
		zv.Assert(len(docs) > 0, "a category has entries")
		total += len(docs)
		k := 0
		for _, d := range all {
			if d.Category == c {
				zv.Assert(k < len(docs) && sameDoc(docs[k], d), "a category lists exactly its functions, in order")
				k++
			}
		}
		zv.Assert(k == len(docs), "a category lists exactly its functions")
	}
	zv.Assert(total == len(all), "every function is in exactly one category")
	zv.MapOrder(zv.Choose("order 2", zv.MapOrders()))
	zv.Assert(sameDocs(all, edlisp.GetAllDocumentation()), "the same entries in the same order every time")
	again := edlisp.GetCategories()
	zv.Assert(strings.Join(cats, ",") == strings.Join(again, ","), "the same categories in the same order every time")
	zv.Cover("all")
}

// Bounds: queries of up to 6 (thorough 8) arbitrary bytes, and every function name with one arbitrary byte changed, removed or appended.
func P23_lookup() {
	fns := functions()
	q := ""
	switch zv.Choose("kind", 4) {
	case 0:
		q = zv.Str("q", tq(6, 8), zv.Any)
	case 1:
		f := fns[zv.Choose("f", len(fns))]
		i := zv.Choose("i", len(f))
		q = f[:i] + zv.StrN("c", 1, zv.Any) + f[i+1:]
	case 2:
		q = fns[zv.Choose("f", len(fns))] + zv.StrN("c", 1, zv.Any)
	case 3:
		f := fns[zv.Choose("f", len(fns))]
		i := zv.Choose("i", len(f))
		q = f[:i] + f[i+1:]
	}
	is := false
	for _, f := range fns {
		if q == f {
			is = true
		}
	}
	d, ok := edlisp.GetDocumentation(q)
	zv.Assert(ok == is, "exactly the functions of the environment have an entry")
	zv.Assert(!ok || d.Name == q, "a lookup returns the entry of that name")
	if ok {
		zv.Cover("found")
	} else {
		zv.Cover("missing")
	}
}

// Bounds: category queries of up to 8 arbitrary bytes, and every category with one byte arbitrary.
func P23_category() {
	all := edlisp.GetAllDocumentation()
	cats := edlisp.GetCategories()
	q := ""
	if zv.Bool("mutate") {
		c := cats[zv.Choose("c", len(cats))]
		i := zv.Choose("i", len(c))
		q = c[:i] + zv.StrN("b", 1, zv.Any) + c[i+1:]
	} else {
		q = zv.Str("q", tq(6, 8), zv.Any)
	}
	docs := edlisp.GetDocumentationByCategory(q)
	k := 0
	for _, d := range all {
		if d.Category == q {
			zv.Assert(k < len(docs) && docs[k].Name == d.Name, "a category query returns exactly the functions of that category")
			k++
		}
	}
	zv.Assert(k == len(docs), "a category query returns nothing else")
	if k > 0 {
		zv.Cover("some")
	} else {
		zv.Cover("none")
	}
}

// Bounds: requests for every function, 3 unknown names of up to 2 arbitrary bytes, every category, an unknown category, all functions; verbose or not; every pair of 5 map iteration orders.
func P23_tool() {
	args := map[string]any{}
	fns := functions()
	all := edlisp.GetAllDocumentation()
	verbose := false
	if zv.Bool("verbose") {
		args["verbose"] = true
		verbose = true
	}
	var want []edlisp.FunctionDoc
	one := false
	bad := false
	switch zv.Choose("request", 5) {
	case 0:
		want = all
	case 1:
		i := zv.Choose("f", len(fns))
		args["function_name"] = fns[i]
		want, one = all[i:i+1], true
	case 2:
		n := zv.StrN("name", 1+zv.Choose("n", 2), zv.Any)
		args["function_name"] = n
		bad = true
	case 3:
		cats := edlisp.GetCategories()
		c := cats[zv.Choose("c", len(cats))]
		args["category"] = c
		for _, d := range all {
			if d.Category == c {
				want = append(want, d)
			}
		}
	case 4:
		args["category"] = zv.StrN("cat", 2, zv.Any)
		if zv.Bool("both") {
			args["function_name"] = "insert"
		}
		bad = true
	}
	zv.MapOrder(zv.Choose("order", zv.MapOrders()))
	text, isErr := callTool(tools.TextedDocHandler, args)
	zv.MapOrder(zv.Choose("order 2", zv.MapOrders()))
	text2, isErr2 := callTool(tools.TextedDocHandler, args)
	zv.Assert(text == text2 && isErr == isErr2, "the same request gives the same answer every time")
	zv.Assert(isErr == bad, "an unknown name or category is an error, everything else is not")
	if bad {
		zv.Cover("error")
		return
	}
	if one {
		d := want[0]
		zv.Assert(strings.HasPrefix(text, "# "+d.Name+"\n") && strings.Contains(text, d.Summary) && strings.Contains(text, strings.TrimSpace(d.Description)), "the answer is the function's documentation")
		for _, p := range d.Parameters {
			zv.Assert(strings.Contains(text, "**"+p.Name+"** ("+p.Type+")") && strings.Contains(text, p.Description), "the answer lists the parameters")
		}
		for _, e := range d.Examples {
			zv.Assert(strings.Contains(text, e.Input) && strings.Contains(text, e.Description), "the answer shows the examples")
		}
		zv.Assert(strings.Contains(text, "**Category:** "+d.Category), "the answer names the category")
		zv.Assert(len(d.SeeAlso) == 0 || strings.Contains(text, strings.Join(d.SeeAlso, ", ")), "the answer lists related functions")
		zv.Cover("function")
		return
	}
	count := 0
	for _, l := range strings.Split(text, "\n") {
		if !strings.HasPrefix(l, "- ") {
			continue
		}
		count++
		ok := false
		for _, d := range want {
			if !verbose && l == "- "+d.Name || verbose && l == "- **"+d.Name+"**: "+d.Summary {
				ok = true
			}
		}
		zv.Assert(ok, "the list has exactly the matching functions")
	}
	zv.Assert(count == len(want), "the list has every matching function once")
	for _, d := range want {
		if verbose {
			zv.Assert(strings.Count(text, "- **"+d.Name+"**: ") == 1 && strings.Contains(text, "## "+d.Category+"\n"), "the list has every matching function once, below its category")
		} else {
			zv.Assert(strings.Contains(text+"\n", "- "+d.Name+"\n"), "the list has every matching function")
		}
	}
	zv.Cover("list")
}

// P23_tool_history: earlier requests do not change later answers.
//
// Bounds: every pair of 12 requests (all, verbose, categories, functions, unknown ones), each after the other.
func P23_tool_history() {
	requests := []map[string]any{{}, {"verbose": true}, {"category": "search"}, {"category": "movement", "verbose": true}, {"function_name": "insert"}, {"function_name": "mark", "verbose": true},
		{"function_name": "mark-word"}, {"function_name": "point"}, {"function_name": "point-max"}, {"function_name": "word"}, {"category": "nope"}, {"function_name": "replace-match"}}
	i, j := zv.Choose("first", len(requests)), zv.Choose("second", len(requests))
	a, aerr := callTool(tools.TextedDocHandler, requests[i])
	b, berr := callTool(tools.TextedDocHandler, requests[j])
	c, cerr := callTool(tools.TextedDocHandler, requests[i])
	d, derr := callTool(tools.TextedDocHandler, requests[j])
	zv.Assert(a == c && aerr == cerr && b == d && berr == derr, "the same request gives the same answer every time")
	zv.Assert(i == j || a != b, "different requests are answered differently")
	zv.Cover("history")
}

// P23_suggest: an unknown name is answered with functions that exist.
//
// Bounds: every proper prefix and suffix of every function's name that is not a function itself, and every name with an arbitrary letter appended.
func P23_suggest() {
	fns := functions()
	f := fns[zv.Choose("f", len(fns))]
	i := zv.Choose("i", len(f)-1) + 1
	q := f[:i]
	switch zv.Choose("kind", 3) {
	case 1:
		q = f[i:]
	case 2:
		q = f + zv.StrN("c", 1, "abc-")
	}
	have := " " + strings.Join(fns, " ") + " "
	zv.Assume(!strings.Contains(have, " "+q+" "))
	text, isErr := callTool(tools.TextedDocHandler, map[string]any{"function_name": q})
	zv.Assert(isErr, "an unknown name is an error")
	if _, l, ok := strings.Cut(text, "Did you mean: "); ok {
		for _, s := range strings.Split(l, ", ") {
			zv.Assert(strings.Contains(have, " "+s+" ") && (strings.Contains(s, q) || strings.Contains(q, s)), "the functions suggested exist and match")
		}
		zv.Cover("suggested")
	}
}
