package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

func inside(b *edlisp.Buffer, when string) {
	n := len(b.String()) + 1
	zv.Assert(b.Point() >= 1 && b.Point() <= n, "point is inside the buffer "+when)
	zv.Assert(b.Mark() >= 1 && b.Mark() <= n, "mark is inside the buffer "+when)
}

// Bounds: text up to 4 bytes; SetPoint and SetMark with every 64-bit int; then Insert of up to 3 bytes.
func P01_setters() {
	text := anyText(4, zv.Any)
	b := edlisp.NewBuffer(text)
	inside(b, "of a new buffer")
	b.SetPoint(zv.Int("point"))
	b.SetMark(zv.Int("mark"))
	inside(b, "after SetPoint and SetMark")
	b.Insert(zv.Str("ins", 3, zv.Any))
	inside(b, "after Insert")
	zv.Cover("setters")
}

// Bounds: text up to 3 (thorough 5) arbitrary bytes, every point and mark, with and without a remembered match;
// one instruction: numbers -2..5, NaN, infinities, fractions and huge values (thorough: every float64), strings up to 2 bytes, 4 regexps.
func P01_step() {
	text := anyText(tq(3, 5), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 2)
	g := gen{alphabet: zv.Any, slen: tq(1, 2), floats: true, rx: []string{"a|\n", "b*", "(", "$"}}
	s, in := g.anyInstr("op")
	_, err := run(b, in)
	inside(b, "after any instruction")
	if err != nil {
		zv.Cover("failed")
	} else {
		zv.Cover(s.name)
	}
}

// Bounds: text up to 2 (thorough 3) bytes of "a\n "; every sequence of 2 instructions where the first edits, moves mark
// or searches, small integer counts (-2..4), strings up to 1 byte.
func P01_history() {
	text := anyText(tq(2, 3), "a\n ")
	b := newBuf(text)
	g := gen{alphabet: "a", slen: 2, lo: -2, hi: 4, rx: []string{"a"}}
	s := builtins[zv.Choose("first", len(builtins))]
	zv.Assume(edits(s.name) || s.args == "r" || s.args == "s" || s.name == "mark-word" || s.name == "mark-line" || s.name == "set-mark-command" || s.name == "mark-whole-buffer")
	run(b, instr(s.name, g.anyArgs(s, "first")...))
	inside(b, "after the first instruction")
	s, in := g.anyInstr("second")
	zv.Assume(edits(s.name) || s.name == "exchange-point-and-mark" || s.name == "replace-match" || s.name == "mark-line" || s.name == "beginning-of-line" || s.name == "end-of-line" || s.name == "backward-word" || s.name == "search-backward")
	run(b, in)
	inside(b, "after the second instruction")
	zv.Cover("history")
}
