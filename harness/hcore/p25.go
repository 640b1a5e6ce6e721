package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

func copyValue(v edlisp.Value) edlisp.Value {
	switch x := v.(type) {
	case *edlisp.String:
		return str(x.Value)
	case *edlisp.Number:
		return num(x.Value)
	case *edlisp.Symbol:
		return sym(x.Name)
	case *edlisp.List:
		var out []edlisp.Value
		for _, e := range x.Elements {
			out = append(out, copyValue(e))
		}
		return list(out...)
	}
	return v
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return (a == nil) == (b == nil)
	}
	return cause(a).Error() == cause(b).Error()
}

var smallGen = gen{alphabet: "ab", slen: 1, lo: -1, hi: 3, rx: []string{"a", "("}}

// Bounds: text up to 2 (thorough 3) bytes of "ab\n"; every instruction A evaluated on another buffer and environment between two evaluations of every instruction B.
func P25_isolation() {
	text := anyText(tq(2, 3), "ab\n")
	probes := []edlisp.Value{
		instr("replace-match", str("z")),
		list(sym("insert"), instr("concat", str("x"), str("y"))),
		instr("delete-char"),
		instr("search-forward", str("b")),
		instr("kill-word", inum(1)),
		instr("re-search-forward", str("[ab]")),
	}
	prog := []edlisp.Value{instr("search-forward", str("a")), probes[zv.Choose("B", len(probes))]}
	env := edlisp.NewDefaultEnvironment()
	b1 := edlisp.NewBuffer(text)
	v1, e1 := edlisp.Eval(prog, env, b1)
	s1 := snapFull(b1)

	other := edlisp.NewBuffer("aba b\n")
	other.SetPoint(2)
	_, a := smallGen.anyInstr("A")
	otherEnv := edlisp.NewDefaultEnvironment()
	otherEnv.Functions["insert"] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
		return edlisp.NewString("mine"), nil
	}
	delete(otherEnv.Functions, "concat")
	edlisp.Eval([]edlisp.Value{instr("search-forward", str("b")), a}, otherEnv, other)
	zv.Assert(snapFull(b1) == s1, "another execution leaves this buffer alone")

	b2 := edlisp.NewBuffer(text)
	v2, e2 := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b2)
	zv.Assert(snapFull(b2) == s1, "the same script on the same text gives the same buffer whatever ran in between")
	zv.Assert(sameErr(e1, e2), "the same script on the same text gives the same error whatever ran in between")
	zv.Assert(e1 != nil || edlisp.Equal(v1, v2), "the same script on the same text gives the same value whatever ran in between")
	zv.Cover("isolated")
	if e1 != nil {
		zv.Cover("error")
	}
}

// Bounds: text up to 2 (thorough 3) bytes of "ab\n"; every pair of one editing, searching or marking instruction and any instruction; the program is compared with a copy made before, and evaluated a second time.
func P25_program_unchanged() {
	text := anyText(tq(2, 3), "ab\n")
	_, a := smallGen.anyInstr("A")
	prog := []edlisp.Value{instr("search-forward", str("a")), a, list(sym("insert"), instr("upcase", str("q")))}
	if zv.Bool("no search") {
		prog = prog[1:]
	}
	cp := make([]edlisp.Value, len(prog))
	for i, v := range prog {
		cp[i] = copyValue(v)
	}
	b1, b2 := edlisp.NewBuffer(text), edlisp.NewBuffer(text)
	v1, e1 := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b1)
	for i := range prog {
		zv.Assert(edlisp.Equal(prog[i], cp[i]), "Eval does not modify the program")
	}
	v2, e2 := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b2)
	zv.Assert(snapFull(b1) == snapFull(b2) && sameErr(e1, e2), "repeating an execution gives the same text and error")
	zv.Assert(e1 != nil || edlisp.Equal(v1, v2), "repeating an execution gives the same value")
	zv.Cover("repeated")
}

// outcome runs a program on text and lists all that can be seen of its effects.
func outcome(text string, prog []edlisp.Value) ([]string, []int) {
	return outcomeIn(edlisp.NewDefaultEnvironment(), text, prog)
}

func outcomeIn(env *edlisp.Environment, text string, prog []edlisp.Value) ([]string, []int) {
	b := edlisp.NewBuffer(text)
	v, err := edlisp.Eval(prog, env, b)
	f := snapFull(b)
	ts, is := []string{f.text, f.match, ""}, []int{f.pt, f.mark, f.start, f.end}
	if err != nil {
		ts[2] = cause(err).Error()
		return ts, is
	}
	switch x := v.(type) {
	case *edlisp.String:
		ts = append(ts, "s", x.Value)
	case *edlisp.Symbol:
		ts = append(ts, "y", x.Name)
	case *edlisp.Number:
		ts, is = append(ts, "n"), append(is, int(x.Value*4))
	case *edlisp.List:
		ts, is = append(ts, "l"), append(is, len(x.Elements))
	}
	return ts, is
}

func sameOutcome(ts1 []string, is1 []int, ts2 []string, is2 []int) bool {
	if len(ts1) != len(ts2) || len(is1) != len(is2) {
		return false
	}
	for i := range ts1 {
		if ts1[i] != ts2[i] {
			return false
		}
	}
	for i := range is1 {
		if is1[i] != is2[i] {
			return false
		}
	}
	return true
}

// Bounds: text up to 2 (thorough 3) bytes of "ab \n" and point anywhere; every instruction B after goto-char, in a process of its own and in one
// that executed another program before, on another text of 2 bytes: the same function with
// different arguments, or one of 8 other programs.
func P25_process() {
	text := anyText(tq(2, 3), "ab \n")
	g := gen{alphabet: "ab", slen: 1, lo: -1, hi: 2, rx: []string{"a", "a ", "[b]", "b$"}}
	s, in := g.anyInstr("B")
	prog := []edlisp.Value{instr("goto-char", inum(anyPos("point", text))), in}
	ts, is := zv.Fork(func() ([]string, []int) { return outcome(text, prog) })

	h := gen{alphabet: "ab", slen: 1, lo: 1, hi: 2, rx: []string{" a", "a", "A", "(", "[b", "b"}}
	var other []edlisp.Value
	if zv.Bool("same function") {
		other = []edlisp.Value{instr(s.name, h.anyArgs(s, "A")...)}
	} else {
		others := []edlisp.Value{instr("insert", str("q")), instr("search-forward", str("b")), instr("re-search-forward", str("b ")), instr("kill-line"),
			instr("forward-word"), instr("goto-line", inum(2)), instr("delete-char", inum(-1)), instr("line-number-at-pos")}
		other = []edlisp.Value{instr("goto-char", inum(2)), others[zv.Choose("A", len(others))], instr("replace-match", str("Z"))}
	}
	outcome([]string{"b\n", "a b"}[zv.Choose("other text", 2)], other)

	ts2, is2 := outcome(text, prog)
	zv.Assert(sameOutcome(ts, is, ts2, is2), "a program does the same in a fresh process and after other executions")
	zv.Cover("compared")
}

// Bounds: every function called with nested calls that read the buffer or compute on constants at one of its argument positions (up to 4 for concat), other arguments constant, maybe nested in insert; evaluated on two texts of up to 2 bytes of "ab\n" and compared with a
// copy of the program, structurally and in what it does on the second text.
func P25_program_kept() {
	s := builtins[zv.Choose("function", len(builtins))]
	_, hi := s.lim()
	if s.args == "*" {
		hi = 2 + zv.Choose("arguments", 3)
	}
	zv.Assume(hi > 0)
	at := zv.Choose("nested", hi)
	deep := zv.Choose("deep", 2) == 1
	var args []edlisp.Value
	for i := 0; i < hi; i++ {
		k := s.kind(i)
		switch {
		case i == at && k == 'n' && deep:
			args = append(args, instr("length", instr("buffer-substring", inum(1), instr("point-max"))))
		case i == at && k == 'n':
			args = append(args, instr("point-max"))
		case i == at && deep:
			args = append(args, instr("upcase", instr("concat", str("b"), instr("buffer-substring", inum(1), inum(2)))))
		case i == at:
			args = append(args, instr("buffer-substring", inum(1), inum(2)))
		case k == 'n':
			args = append(args, inum(2))
		default:
			args = append(args, str("a"))
		}
	}
	in := instr(s.name, args...)
	if zv.Choose("inserted", 2) == 1 {
		in = instr("insert", instr("concat", in, str("!")))
	}
	prog := []edlisp.Value{instr("search-forward", str("a")), in, instr("replace-match", str("c"))}[zv.Choose("from", 2):]
	cp := make([]edlisp.Value, len(prog))
	for i, v := range prog {
		cp[i] = copyValue(v)
	}
	t1, t2 := zv.Str("text1", 2, "ab\n"), zv.Str("text2", 2, "ab\n")
	outcome(t1, prog)
	for i := range prog {
		zv.Assert(edlisp.Equal(prog[i], cp[i]), "Eval does not modify the program")
	}
	ts1, is1 := outcome(t2, cp)
	ts2, is2 := outcome(t2, prog)
	zv.Assert(sameOutcome(ts1, is1, ts2, is2), "a program that was evaluated does the same as one that was not")
	zv.Cover("kept")
}

// Bounds: a program that searches, marks, moves or edits on a text of up to 2 bytes and stops there or at an error, then, in the same environment or another, one of 10 that depend on point, mark, the remembered match or the text, on a new buffer with an equal or another text of up to 2 bytes; compared with the second in a process of its own.
func P25_leftovers() {
	first := [][]edlisp.Value{
		{instr("search-forward", str("a"))},
		{instr("end-of-buffer"), instr("search-backward", str("a")), instr("insert", str("b"))},
		{instr("re-search-forward", str("[ab]")), instr("set-mark"), instr("no-such")},
		{instr("mark-whole-buffer")},
		{instr("goto-char", inum(2)), instr("set-mark"), instr("end-of-buffer"), instr("search-forward", str("q"))},
		{instr("insert", str("a")), instr("replace-match", str("x"))},
	}[zv.Choose("A", 6)]
	second := [][]edlisp.Value{
		{instr("replace-match", str("z"))}, {instr("insert", str("z"))}, {instr("delete-region")}, {instr("exchange-point-and-mark"), instr("insert", str("z"))}, {instr("point")}, {instr("mark")},
		{instr("search-forward", str("a")), instr("replace-match", str("z"))}, {instr("buffer-substring", inum(1), instr("point-max"))}, {instr("buffer-size")}, {instr("replace-region", str("z")), instr("region-end")},
	}[zv.Choose("B", 10)]
	text, text2 := zv.Str("text", 2, "ab"), zv.Str("text2", 2, "ab")
	ts, is := zv.Fork(func() ([]string, []int) { return outcome(text2, second) })
	env := edlisp.NewDefaultEnvironment()
	edlisp.Eval(first, env, edlisp.NewBuffer(text))
	if zv.Bool("other environment") {
		env = edlisp.NewDefaultEnvironment()
	}
	ts2, is2 := outcomeIn(env, text2, second)
	zv.Assert(sameOutcome(ts, is, ts2, is2), "a program does the same in a fresh process and after one that stopped midway")
	zv.Cover("compared")
}
