package hcli

import (
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/zv"
)

// plan says what an edit may do: the files afterwards, whether it fails, and
// the text standard output must end with (nil: anything).
type plan struct {
	after  tree
	fails  bool
	out    *string
	edited map[string]bool // with --in-place: the files whose script runs through
}

// expect is the documented effect of the flags. opt names files that may be
// missing or hold exactly the content in after (backups of files whose script failed).
func expect(before tree, stdin string, names []string, inPlace, dry bool, output, backup, script, format string) (p plan, opt []string) {
	p.after = before.clone()
	if output != "" && len(names) > 1 || backup != "" && !inPlace || output != "" && inPlace || len(names) > 1 && !inPlace {
		p.fails = true
		return
	}
	if dry {
		return
	}
	if inPlace && len(names) > 0 {
		p.edited = map[string]bool{}
		for _, n := range names {
			c, ok := before[n]
			if !ok {
				p.fails = true
				continue
			}
			out, err := texted.ExecuteScriptWithFormat(c, script, format)
			if backup != "" {
				p.after[n+backup] = c
			}
			if err != nil {
				p.fails = true
				if backup != "" {
					opt = append(opt, n+backup)
				}
				continue
			}
			p.after[n] = out
			p.edited[n] = true
		}
		return
	}
	c := stdin
	if len(names) == 1 {
		var ok bool
		if c, ok = before[names[0]]; !ok {
			p.fails = true
			return
		}
	}
	out, err := texted.ExecuteScriptWithFormat(c, script, format)
	if err != nil {
		p.fails = true
	} else if output != "" {
		p.after[output] = out
	} else {
		p.out = &out
	}
	return
}

// honest checks a line that says a file was edited.
func honest(p plan, name string) {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	if p.edited != nil {
		zv.Assert(p.edited[name], "no file is said to be edited that is not")
	}
}

// check compares what happened with the plan.
func check(p plan, opt []string, err error, stdout string, exact bool) {
	zv.Assert((err != nil) == p.fails, "the command fails exactly when the request cannot be carried out")
	got := files()
	for _, n := range opt {
		if _, ok := got[n]; !ok {
			delete(p.after, n)
		}
	}
	zv.Assert(got.same(p.after), "exactly the files the flags ask for are created or changed")
	for _, l := range strings.Split(stdout, "\n") {
		// a file whose script failed is as it was; saying it was edited would be a lie
		if i := strings.Index(l, "Successfully edited "); i >= 0 {
			honest(p, l[i+len("Successfully edited "):])
		}
	}
	if p.out != nil {
		zv.Assert(strings.HasSuffix(stdout, *p.out) && (!exact || stdout == *p.out), "the result goes to standard output")
		zv.Cover("stdout")
	}
	if err != nil {
		zv.Cover("error")
	}
}

// Bounds: every combination of --in-place, --output, --backup, --dry-run, --quiet and --verbose; no file (stdin), one, two, a missing one, or a mix of both; files and stdin of up to 2 and 1 bytes of "ab"; 4 scripts:
// succeeding always, succeeding if there is an "a", failing after an edit, unparsable.
func P21_flags() {
	f, g := zv.Str("f", 2, "ab"), zv.StrN("g", 1, "ab")
	put("f", f)
	put("g", g)
	put("out", "old")
	zv.SetStdin(g)
	script := []string{`insert "x"`, `search-forward "a"; replace-match "yz"`, `insert "x"; search-forward "q"`, `insert "x"; (insert "y"`}[zv.Choose("script", 4)]
	args := []string{"-s", script}
	flag := func(label string, more ...string) bool {
		if zv.Bool(label) {
			args = append(args, more...)
			return true
		}
		return false
	}
	inPlace, dry := flag("in-place", "--in-place"), flag("dry-run", "-n")
	output, backup := "", ""
	if zv.Bool("output") {
		output = []string{"new", "out"}[zv.Choose("target", 2)]
		args = append(args, "-o", at(output))
	}
	if flag("backup", "--backup", ".bak") {
		backup = ".bak"
	}
	quiet, verbose := flag("quiet", "-q"), flag("verbose", "--verbose")
	names := [][]string{nil, {"f"}, {"f", "g"}, {"missing"}, {"f", "missing"}, {"missing", "f"}}[zv.Choose("files", 6)]
	for _, n := range names {
		args = append(args, at(n))
	}
	before := files()
	p, opt := expect(before, g, names, inPlace, dry, output, backup, script, "shell")
	err := edit(args...)
	if dry && strings.Contains(strings.Join(names, " "), "missing") {
		p.fails = err != nil // a dry run may look at the files or not
	}
	check(p, opt, err, zv.TakeStdout(), !verbose || quiet)
	if dry {
		zv.Assert(files().same(before), "a dry run never changes anything")
		zv.Cover("dry")
	}
	if backup != "" && err == nil && !dry {
		zv.Cover("backup")
	}
}

// Bounds: the script given by -s, -f (also unreadable), both absent, or empty; in a format chosen by --format (4 values, one invalid), --shell, --sexp, --json or default; for stdin, stdout, --in-place or --output; one file of up to 2 arbitrary bytes; scripts in JSON and
// shell syntax with a literal of up to 1 byte, some invalid in the chosen format.
func P21_script_source() {
	f := zv.Str("f", 2, zv.Any)
	put("f", f)
	zv.SetStdin(f)
	lit := zv.Str("lit", 1, "a;()")
	script := []string{`insert "` + lit + `"`, `(insert "` + lit + `") (end-of-buffer)`, `[["insert", "` + lit + `"]]`, `["insert", "x"]`, "nonsense", ""}[zv.Choose("script", 6)]
	var args []string
	fails := script == ""
	switch zv.Choose("source", 4) {
	case 0:
		args = append(args, "--script", script)
	case 1:
		put("script", script)
		args = append(args, "-f", at("script"))
		fails = false
	case 2:
		args = append(args, "--file", at("missing"))
		fails = true
	case 3:
		fails = true
	}
	format := "shell"
	switch zv.Choose("format", 8) {
	case 0:
		args = append(args, "--format", "shell")
	case 1:
		args = append(args, "--format=sexp")
		format = "sexp"
	case 2:
		args = append(args, "--format", "json")
		format = "json"
	case 3:
		args = append(args, "--format", "xml")
		fails = true
	case 4:
		args = append(args, "--shell")
	case 5:
		args = append(args, "--sexp")
		format = "sexp"
	case 6:
		args = append(args, "--json")
		format = "json"
	}
	inPlace, output := false, ""
	var names []string
	switch zv.Choose("target", 4) {
	case 0:
		names = []string{"f"}
	case 1:
		names, inPlace = []string{"f"}, true
		args = append(args, "-i")
	case 2:
		names, output = []string{"f"}, "new"
		args = append(args, "--output="+at("new"))
	}
	for _, n := range names {
		args = append(args, at(n))
	}
	before := files()
	p, _ := expect(before, f, names, inPlace, false, output, "", script, format)
	if fails {
		p = plan{before, true, nil, nil}
	}
	err := edit(args...)
	check(p, nil, err, zv.TakeStdout(), true)
	if err == nil {
		zv.Cover("edited")
	}
}

// Bounds: one or two expressions out of 8 (values of all kinds, edits, failing, unparsable, with commas and quotes); stdin, one file, a missing one, or two files, of up to 2 bytes of "ab"; output format default, sexp, json or invalid; quiet or not; --in-place,
// --output, --backup and --dry-run given too.
func P21_expression() {
	f := zv.Str("f", 2, "ab")
	put("f", f)
	put("g", "aa")
	zv.SetStdin(f)
	zv.ExactFmt(true)
	all := []string{`point`, `insert "x,y"`, `buffer-substring 1 -1`, `looking-at "a"`, `search-forward "b"`, `(concat "," "b")`, `insert "x`, `length "a\"b"`}
	var exprs, args []string
	for i := 1 + zv.Choose("n", 2); i > 0; i-- {
		e := all[zv.Choose("e", len(all))]
		exprs = append(exprs, e)
		args = append(args, "-e", e)
	}
	outFormat := "shell"
	switch zv.Choose("of", 4) {
	case 1:
		outFormat = "sexp"
		args = append(args, "--output-format", outFormat)
	case 2:
		outFormat = "json"
		args = append(args, "--output-format", outFormat)
	case 3:
		outFormat = "bad"
		args = append(args, "--output-format", outFormat)
	}
	names := [][]string{nil, {"f"}, {"g", "f"}, {"missing"}}[zv.Choose("files", 4)]
	mayFail := false
	extra := zv.Choose("extra", 6)
	switch extra {
	case 1:
		args = append(args, "-i")
	case 2:
		args = append(args, "-i", "--backup", "~")
	case 3:
		args = append(args, "-o", at("new"))
		mayFail = len(names) > 1
	case 4:
		args = append(args, "--dry-run")
	}
	quiet := extra == 5
	if quiet {
		args = append(args, "-q")
	}
	for _, n := range names {
		args = append(args, at(n))
	}
	before := files()
	err := edit(args...)
	stdout := zv.TakeStdout()
	zv.Assert(files().same(before), "--expression never writes files")
	var inputs []string
	for _, n := range names {
		c, ok := before[n]
		if !ok {
			zv.Assert(err != nil, "an unreadable input is an error")
			zv.Cover("unreadable")
			return
		}
		inputs = append(inputs, c)
	}
	if names == nil {
		inputs = []string{f}
	}
	if mayFail {
		zv.Assert(err != nil, "an invalid flag combination is an error")
		return
	}
	// the values, in order
	var want []edlisp.Value
	failed := false
	for _, in := range inputs {
		b := edlisp.NewBuffer(in)
		for _, e := range exprs {
			prog, perr := parser.ParseString(e)
			if perr != nil {
				failed = true
				break
			}
			v, verr := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b)
			if verr != nil || outFormat == "bad" && !quiet {
				failed = true
				break
			}
			want = append(want, v)
		}
		if failed {
			break
		}
	}
	zv.Assert((err != nil) == failed, "the command fails exactly when an expression does")
	if err != nil {
		zv.Cover("failed")
		return
	}
	if quiet {
		zv.Assert(stdout == "", "nothing is printed with --quiet")
		return
	}
	i := 0
	for _, l := range strings.Split(strings.TrimRight(stdout, "\n"), "\n") {
		if l == "" || strings.HasPrefix(l, "=== ") {
			continue
		}
		var got []edlisp.Value
		var gerr error
		switch outFormat {
		case "json":
			got, gerr = parser.ParseJSONString("[[\"v\"," + l + "]]")
		case "sexp":
			got, gerr = parser.ParseSexp("(v " + l + ")")
		default:
			got, gerr = parser.ParseString("v " + l)
		}
		zv.Assert(gerr == nil && len(got) == 1, "what is printed is a value in the output format")
		gl := got[0].(*edlisp.List)
		zv.Assert(i < len(want) && len(gl.Elements) == 2, "one value is printed for each expression")
		w := want[i]
		if s, ok := w.(*edlisp.Symbol); ok && outFormat == "json" {
			w = edlisp.NewString(s.Name)
		}
		zv.Assert(edlisp.Equal(gl.Elements[1], w), "the value of each expression is printed, in order")
		i++
	}
	zv.Assert(i == len(want), "a value is printed for every expression")
	zv.Cover("values")
}

// Bounds: writes failing beyond file offset 0..4; a file of up to 3 bytes and one of 1; a script inserting up to 2 bytes; --in-place with and without --backup, --output, for one and two files.
func P21_write_fault() {
	f := zv.Str("f", 3, "ab")
	put("f", f)
	put("g", "a")
	put("out", "old")
	lit := zv.Str("lit", 2, "xy")
	args := []string{"-s", `insert "` + lit + `"`}
	mode := zv.Choose("mode", 3)
	switch mode {
	case 0:
		args = append(args, "-i")
	case 1:
		args = append(args, "-i", "--backup", ".bak")
	case 2:
		args = append(args, "-o", at("out"))
	}
	args = append(args, at("f"))
	two := mode < 2 && zv.Bool("two")
	if two {
		args = append(args, at("g"))
	}
	limit := zv.Choose("limit", 5)
	before := files()
	zv.FailWritesAfter(limit)
	err := edit(args...)
	zv.FailWritesAfter(-1)
	said := zv.TakeStdout()
	after := files()
	want := lit + f
	ok := len(want) <= limit
	if mode == 2 {
		zv.Assert((err == nil) == ok, "a failed write is an error")
		zv.Assert(after["f"] == f && after["g"] == "a" && len(after) == 3, "--output writes only that file")
		zv.Assert(err != nil || after["out"] == want, "the output file holds the result")
		return
	}
	names := []string{"f"}
	if two {
		names = append(names, "g")
	}
	allowed := 3
	fails := false
	for _, n := range names {
		orig := before[n]
		bok := mode == 0 || len(orig) <= limit
		fok := bok && len(lit)+len(orig) <= limit
		fails = fails || !fok
		zv.Assert(fok || !strings.Contains(said, "Successfully edited "+at(n)+"\n"), "no file is said to be edited that is not")
		if fok {
			zv.Assert(after[n] == lit+orig, "a file that can be written holds the edited text")
		}
		if mode == 1 {
			b, is := after[n+".bak"]
			if is {
				allowed++
			}
			zv.Assert(after[n] == orig || is && b == orig, "a file is only changed after its backup was made")
			zv.Assert(!fok || is && b == orig, "an edited file has a byte-exact backup")
			if !bok {
				zv.Cover("backup failed")
			} else if !fok {
				zv.Cover("write failed")
			}
		}
	}
	zv.Assert((err != nil) == fails, "a failed write is an error")
	zv.Assert(len(after) == allowed && after["out"] == "old", "no other file is touched")
}

// Bounds: one or two files of up to 3 bytes, or one file named twice (without backup); a backup file from earlier of up to 3 bytes, or none; suffix ".bak" or "~"; scripts that edit, edit if there is an "a", or change nothing.
func P21_backup() {
	f := zv.Str("f", 3, "ab")
	put("f", f)
	put("g", "ab")
	suffix := []string{".bak", "~", ""}[zv.Choose("suffix", 3)]
	if suffix != "" && zv.Bool("existing") {
		put("f"+suffix, zv.Str("old", 3, "ab"))
	}
	script := []string{`insert "x"`, `search-forward "a"; replace-match "b"`, "point", `end-of-buffer; delete-backward-char`}[zv.Choose("script", 4)]
	names := [][]string{{"f"}, {"f", "g"}, {"g", "f"}, {"f", "f"}}[zv.Choose("files", 4)]
	args := []string{"-i", "-s", script}
	if suffix != "" {
		zv.Assume(names[0] == "g" || len(names) == 1 || names[1] != "f")
		args = append(args, "--backup", suffix)
	}
	want := files()
	fails := false
	for _, n := range names {
		c := want[n]
		out, err := texted.ExecuteScript(c, script)
		if err != nil {
			fails = true
			if suffix != "" {
				delete(want, n+suffix)
			}
			continue
		}
		if suffix != "" {
			want[n+suffix] = c
		}
		want[n] = out
	}
	for _, n := range names {
		args = append(args, at(n))
	}
	err := edit(args...)
	zv.Assert((err != nil) == fails, "the command fails exactly when a file cannot be edited")
	got := files()
	if fails && suffix != "" {
		for _, n := range names { // whether a file whose script fails is backed up is left open
			if _, ok := want[n+suffix]; !ok {
				delete(got, n+suffix)
			}
		}
	}
	zv.Assert(got.same(want), "each file holds its edited text and each backup the text before")
	if suffix != "" && !fails {
		zv.Cover("backed up")
	}
}
