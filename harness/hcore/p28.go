package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// twin makes a new buffer with the same text, point, mark and remembered match; ok is false if it cannot.
func twin(b *edlisp.Buffer) (t *edlisp.Buffer, ok bool) {
	f := snapFull(b)
	t = edlisp.NewBuffer(f.text)
	if f.match != "" {
		if f.start < 1 || f.end != f.start+len(f.match) {
			return nil, false
		}
		// remember it in another text, then replace that text
		o := ""
		for len(o) < f.start-1 {
			o += "\x00"
		}
		t = edlisp.NewBuffer(o + f.match)
		t.SetPoint(f.start)
		do(t, "search-forward", str(f.match))
		do(t, "mark-whole-buffer")
		do(t, "delete-region")
		t.Insert(f.text)
	}
	t.SetPoint(f.pt)
	t.SetMark(f.mark)
	return t, snapFull(t) == f
}

// likeTwin evaluates an instruction in b and in a twin of it.
func likeTwin(b *edlisp.Buffer, in edlisp.Value) {
	t, ok := twin(b)
	zv.Assume(ok)
	v1, e1 := run(b, in)
	v2, e2 := run(t, in)
	zv.Assert(sameErr(e1, e2), "an instruction fails as in a new buffer of the same state")
	zv.Assert(e1 != nil || v1 == nil && v2 == nil || edlisp.Equal(v1, v2), "an instruction gives the value it gives in a new buffer of the same state")
	zv.Assert(snapFull(b) == snapFull(t), "an instruction does what it does in a new buffer of the same state")
	zv.Cover("same")
	if e1 != nil {
		zv.Cover("failed")
	}
}

// plain makes one instruction of a function: counts are k, strings and regexps "a".
func plain(s sig, k int) edlisp.Value {
	var args []edlisp.Value
	for i := 0; i < len(s.args); i++ {
		switch s.args[i] {
		case 'n':
			args = append(args, inum(k))
		case 's', 'r', '*':
			args = append(args, str("a"))
		}
	}
	return instr(s.name, args...)
}

func anyPlain(label string, k int) edlisp.Value {
	return plain(builtins[zv.Choose(label, len(builtins))], k)
}

// Bounds: text up to 2 (thorough 3) bytes of "a\n", every point and mark, with and without a remembered match; every instruction with one set of arguments, then every
// instruction (counts 0..2, strings of up to 1 byte, 2 regexps), the second compared with the same one in a new buffer of the same text, point, mark and match.
func P28_two_instructions() {
	b := edlisp.NewBuffer(anyText(tq(2, 3), "a\n"))
	if zv.Tier() > 0 {
		remember(b, 1)
	} else {
		b.SetPoint(anyPos("point", b.String()))
	}
	run(b, anyPlain("first", 1))
	g := gen{alphabet: "a", slen: 1, lo: 0, hi: 2, rx: []string{"a", "$"}}
	_, in := g.anyInstr("second")
	likeTwin(b, in)
}

// Bounds: text of 2 bytes of "a\n", point after the first; two (thorough three) of 14 editing, searching and moving instructions, then any instruction.
func P28_histories() {
	b := edlisp.NewBuffer(zv.StrN("text", 2, "a\n"))
	b.SetPoint(2)
	steps := []edlisp.Value{instr("insert", str("a\n")), instr("insert", str("b")), instr("delete-char"), instr("delete-backward-char"), instr("search-forward", str("a")), instr("re-search-backward", str("a")),
		instr("replace-match", str("bb")), instr("kill-line"), instr("goto-char", inum(2)), instr("set-mark"), instr("exchange-point-and-mark"), instr("delete-region"), instr("end-of-buffer"), instr("line-number-at-pos")}
	for i := tq(2, 3); i > 0; i-- {
		run(b, steps[zv.Choose("step", len(steps))])
	}
	likeTwin(b, anyPlain("last", 1))
}

// Bounds: text up to 2 bytes of "a\n"; two (thorough three) calls of the Go methods Insert, SetPoint and SetMark with
// positions -1..4 and strings of up to 1 byte, then any instruction.
func P28_go_calls() {
	b := edlisp.NewBuffer(anyText(2, "a\n"))
	for i := tq(2, 3); i > 0; i-- {
		switch zv.Choose("call", 3) {
		case 0:
			b.Insert(zv.Str("ins", 1, "a\n"))
		case 1:
			b.SetPoint(zv.IntRange("pt", -1, 4))
		case 2:
			b.SetMark(zv.IntRange("mk", -1, 4))
		}
	}
	likeTwin(b, anyPlain("last", 1))
}

// Bounds: text of 300 (thorough 1100) bytes of short lines or one word around up to 1 byte; two of 14 instructions at either end or the middle, then any instruction.
func P28_long() {
	n := tq(300, 1100)
	unit := []string{"ab c\n", "a"}[zv.Choose("padding", 2)]
	b := edlisp.NewBuffer(fill(unit, n) + zv.Str("text", 1, "a\n") + fill(unit, 70))
	b.SetPoint([]int{1, n + 2, len(b.String()) + 1}[zv.Choose("at", 3)])
	steps := []edlisp.Value{instr("insert", str("a\n")), instr("delete-char", inum(70)), instr("search-forward", str("a")), instr("re-search-backward", str("a")),
		instr("replace-match", str("bb")), instr("kill-line"), instr("goto-char", inum(n)), instr("set-mark"), instr("delete-region"), instr("goto-line", inum(60)), instr("line-number-at-pos"), instr("forward-word", inum(9))}
	for i := 2; i > 0; i-- {
		run(b, steps[zv.Choose("step", len(steps))])
	}
	likeTwin(b, anyPlain("last", []int{1, 100}[zv.Choose("count", 2)]))
}

// Bounds: three texts of up to 4 bytes, every mark, two points, with or without a search; one (thorough one or two) of 9 instructions that remove text, then maybe a query, then one of 7 that add text.
func P28_shrink_and_grow() {
	text := []string{"aa", "a\naa", "aaa\n"}[zv.Choose("text", 3)]
	b := edlisp.NewBuffer(text)
	b.SetMark(1 + zv.Choose("mark", len(text)+1))
	b.SetPoint([]int{1, len(text)}[zv.Choose("point", 2)])
	if zv.Choose("search", 2) == 1 {
		do(b, "search-forward", str("a"))
	}
	shrink := []edlisp.Value{instr("delete-char", inum(2)), instr("delete-char", inum(9)), instr("delete-backward-char", inum(2)), instr("kill-line", inum(2)), instr("kill-word", inum(1)), instr("delete-line", inum(1)), instr("delete-region"),
		instr("replace-region", str("")), instr("replace-match", str(""))}
	for i := 1 + zv.Choose("more", tq(1, 2)); i > 0; i-- {
		run(b, shrink[zv.Choose("shrink", len(shrink))])
	}
	if zv.Choose("query", 2) == 1 {
		run(b, instr("region-end"))
	}
	grow := []edlisp.Value{instr("insert", str("aa")), instr("insert", str("")), instr("insert", str("a\nb\n")), instr("replace-region", str("aaa")), instr("replace-match", str("aaa")), instr("exchange-point-and-mark"), instr("delete-region")}
	likeTwin(b, grow[zv.Choose("grow", len(grow))])
}
