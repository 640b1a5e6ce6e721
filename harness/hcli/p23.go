package hcli

import (
	"strings"

	"github.com/dhamidi/texted/commands"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

func doc(args []string) (string, bool) {
	err := runCmd(commands.NewDocCommand(), args)
	return zv.TakeStdout(), err != nil
}

// Bounds: the doc command for every function, unknown names and categories of 1..2 letters, every category, all functions, too many arguments; verbose or not; every pair of 5 map iteration orders.
func P23_command() {
	all := edlisp.GetAllDocumentation()
	var args []string
	verbose := zv.Bool("verbose")
	if verbose {
		args = append(args, "-v")
	}
	var want []edlisp.FunctionDoc
	one, bad := false, false
	switch zv.Choose("request", 5) {
	case 0:
		want = all
	case 1:
		i := zv.Choose("f", len(all))
		args = append(args, all[i].Name)
		want, one = all[i:i+1], true
	case 2:
		args = append(args, zv.StrN("name", 1+zv.Choose("n", 2), "abpt"))
		bad = true
	case 3:
		cats := edlisp.GetCategories()
		c := cats[zv.Choose("c", len(cats))]
		args = append(args, "--category", c)
		for _, d := range all {
			if d.Category == c {
				want = append(want, d)
			}
		}
	case 4:
		bad = true
		if zv.Bool("two") {
			args = append(args, "insert", "mark")
		} else {
			args = append(args, "--category", zv.StrN("cat", 2, "se"))
		}
	}
	zv.MapOrder(zv.Choose("order", zv.MapOrders()))
	out, failed := doc(args)
	zv.MapOrder(zv.Choose("order 2", zv.MapOrders()))
	out2, failed2 := doc(args)
	zv.Assert(out == out2 && failed == failed2, "the same request gives the same output every time")
	zv.Assert(failed == bad, "an unknown name or category is an error, everything else is not")
	if bad {
		zv.Cover("error")
		return
	}
	if one {
		d := want[0]
		zv.Assert(strings.Contains(out, "# "+d.Name+"\n") && strings.Contains(out, d.Summary) && strings.Contains(out, d.Description), "the output is the function's documentation")
		for _, p := range d.Parameters {
			zv.Assert(strings.Contains(out, "- **"+p.Name+"** ("+p.Type+")") && strings.Contains(out, p.Description), "the output lists the parameters")
		}
		for _, e := range d.Examples {
			zv.Assert(strings.Contains(out, e.Input) && strings.Contains(out, e.Output) && strings.Contains(out, e.Buffer) && strings.Contains(out, e.Description), "the output shows the examples")
		}
		zv.Assert(strings.Contains(out, "## Category\n\n"+d.Category+"\n"), "the output names the category")
		for _, s := range d.SeeAlso {
			zv.Assert(strings.Contains(out, "- "+s+"\n"), "the output lists related functions")
		}
		zv.Cover("function")
		return
	}
	count := 0
	for _, l := range strings.Split(out, "\n") {
		name := ""
		if verbose && strings.HasPrefix(l, "- **") {
			name, _, _ = strings.Cut(l[4:], "**")
		} else if !verbose && strings.HasPrefix(l, "  ") {
			name = l[2:]
		} else {
			continue
		}
		count++
		ok := false
		for _, d := range want {
			ok = ok || d.Name == name
		}
		zv.Assert(ok, "the list has exactly the matching functions")
	}
	zv.Assert(count == len(want), "the list has every matching function once")
	for _, d := range want {
		if verbose {
			zv.Assert(strings.Count(out, "- **"+d.Name+"**: "+d.Summary+"\n") == 1, "the list has every matching function once, with its summary")
		} else {
			zv.Assert(strings.Count(out, "  "+d.Name+"\n") == 1, "the list has every matching function once")
		}
	}
	zv.Cover("list")
}

// P23_command_history: earlier requests do not change later answers.
//
// Bounds: every pair of 12 requests (all, verbose, two categories, functions, unknown ones), each after the other.
func P23_command_history() {
	requests := [][]string{nil, {"-v"}, {"--category", "search"}, {"-v", "--category", "movement"}, {"insert"}, {"-v", "mark"}, {"mark-word"}, {"point"}, {"point-max"}, {"nope"}, {"--category", "nope"}, {"replace-match"}}
	i, j := zv.Choose("first", len(requests)), zv.Choose("second", len(requests))
	a, aerr := doc(requests[i])
	b, berr := doc(requests[j])
	c, cerr := doc(requests[i])
	d, derr := doc(requests[j])
	zv.Assert(a == c && aerr == cerr && b == d && berr == derr, "the same request gives the same output every time")
	zv.Assert(i == j || aerr && berr || a != b, "different requests are answered differently")
	zv.Cover("history")
}
