package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: text up to 2 (thorough 4) arbitrary bytes, every point and mark, with and without a remembered match;
// every builtin with well-typed arguments: integers -3..6, strings up to 2 bytes, valid and invalid regexps.
func P03_well_typed() {
	text := anyText(tq(2, 4), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	before := snapFull(b)
	g := gen{alphabet: zv.Any, slen: 2, lo: -3, hi: 6, rx: []string{"ab", "a", "(", "[z-a]", "", "b$"}}
	s, in := g.anyInstr("op")
	_, err := run(b, in)
	if err != nil {
		after := snapFull(b)
		zv.Assert(after.text == before.text, "a failing instruction leaves the text alone: "+s.name)
		zv.Assert(after.pt == before.pt && after.mark == before.mark, "a failing instruction leaves point and mark alone: "+s.name)
		zv.Assert(after.match == before.match && after.start == before.start && after.end == before.end, "a failing instruction keeps the remembered match: "+s.name)
		zv.Cover("failed " + s.name)
	}
}

// Bounds: text up to 3 arbitrary bytes, every point and mark, remembered match; every builtin with 0..3 arguments of any kind.
func P03_ill_typed() {
	text := anyText(tq(2, 3), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	before := snapFull(b)
	s := builtins[zv.Choose("op", len(builtins))]
	n := zv.Choose("argc", 4)
	var args []edlisp.Value
	for i := 0; i < n; i++ {
		switch zv.Choose("arg"+string(rune('0'+i)), 3) {
		case 0:
			args = append(args, inum(2))
		case 1:
			args = append(args, str("a"))
		case 2:
			args = append(args, instr("looking-at", str("")))
		}
	}
	_, err := do(b, s.name, args...)
	if err != nil {
		zv.Assert(snapFull(b) == before, "a rejected instruction changes nothing: "+s.name)
		zv.Cover("failed")
	}
}

// Bounds: text up to 3 arbitrary bytes; a failing instruction whose arguments are calls that themselves succeed or fail.
func P03_nested() {
	text := anyText(3, zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	// the argument call moves point and edits, then the outer call rejects its value
	inner := instr([]string{"forward-char", "delete-char", "end-of-line"}[zv.Choose("inner", 3)])
	twin := edlisp.NewBuffer(text)
	twin.SetPoint(b.Point())
	twin.SetMark(b.Mark())
	run(twin, inner)
	outer := []string{"goto-char", "forward-char", "goto-line", "delete-char", "kill-line", "mark-line"}[zv.Choose("outer", 6)]
	_, err := run(b, list(sym(outer), inner))
	zv.Assert(err != nil, "a string is not a number")
	zv.Assert(snap(b) == snap(twin), "only the effects of evaluating the arguments remain")
	zv.Cover("nested")
}
