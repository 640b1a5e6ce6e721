package hcore

import (
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// anyValue makes an argument of any kind an instruction can receive.
// The returned letter is its kind: n number, s string, y symbol.
// Arguments of the expected kind are arbitrary.
func anyValue(label string, want byte) (edlisp.Value, byte) {
	switch zv.Choose(label, 3) {
	case 0:
		if want != 'n' {
			return inum(2), 'n'
		}
		return anyNum(label), 'n'
	case 1:
		if want != 's' {
			return str("a"), 's'
		}
		return str(zv.Str(label, 1, zv.Any)), 's'
	}
	return instr("looking-at", str("")), 'y'
}

// Bounds: text up to 2 (thorough 4) arbitrary bytes, every point and mark; every builtin with 0..3 (thorough 4) arguments,
// each a number, string or symbol value, of the expected kind any number (-2..5, non-finite, fractional, huge; thorough: every float64), any string of up to 1 byte.
func P02_any_arguments() {
	text := anyText(tq(2, 4), zv.Any)
	b := newBuf(text)
	s := builtins[zv.Choose("op", len(builtins))]
	n := zv.Choose("argc", tq(4, 5))
	lo, hi := s.lim()
	ok := n >= lo && n <= hi
	var args []edlisp.Value
	for i := 0; i < n; i++ {
		want := s.kind(i)
		if want == 'r' {
			want = 's'
		}
		expect := want
		if !ok {
			expect = 'x'
		}
		v, k := anyValue("arg"+string(rune('0'+i)), expect)
		args = append(args, v)
		if ok && k != want {
			ok = false
		}
	}
	var val edlisp.Value
	var err error
	msg, panicked := zv.Catch(func() { val, err = do(b, s.name, args...) })
	zv.Assert(!panicked, "no panic: "+msg)
	if err == nil {
		zv.Assert(val != nil, "an instruction returns a value or an error")
		zv.Cover("value")
	} else {
		zv.Cover("error")
	}
	if !ok {
		zv.Assert(err != nil, "a wrong argument count or kind is an error: "+s.name)
		zv.Assert(strings.Contains(cause(err).Error(), s.name), "the error of a wrong argument names the function: "+s.name)
		zv.Cover("wrong arguments")
	}
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark; every builtin with well-typed arguments,
// numbers as in P02_any_arguments, regexps from a family with empty matches, anchors, classes and invalid syntax.
func P02_returns() {
	text := anyText(tq(3, 5), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	g := gen{alphabet: zv.Any, slen: tq(1, 2), floats: true, rx: []string{"", "a*", "^|$", `\b`, "(?s).", "[", "(a|b)+", `\Qx`}}
	s, in := g.anyInstr("op")
	var val edlisp.Value
	var err error
	msg, panicked := zv.Catch(func() { val, err = run(b, in) })
	zv.Assert(!panicked, "no panic: "+msg)
	zv.Assert(err != nil || val != nil, "an instruction returns a value or an error")
	zv.Cover(s.name)
}

// Bounds: every program of one value that is not a plain instruction: strings, numbers, symbols, empty and malformed lists, unknown functions (names up to 3 bytes), nested to depth 2.
func P02_malformed_programs() {
	b := newBuf(anyText(2, zv.Any))
	before := snap(b)
	var p edlisp.Value
	bad := true
	switch zv.Choose("form", 8) {
	case 0:
		p, bad = str(zv.Str("s", 2, zv.Any)), false
	case 1:
		p, bad = num(zv.Float("n")), false
	case 2:
		p = sym(zv.Str("y", 2, zv.Any))
	case 3:
		p = list()
	case 4:
		p = list(str("insert"), str("x"))
	case 5:
		p = list(num(1))
	case 6:
		p = list(list(sym("point")))
	case 7:
		p = list(sym(zv.Str("fn", 3, "abz-")))
	}
	if zv.Bool("nested") {
		p, bad = list(sym("insert"), p), bad || p.Kind() != edlisp.TheStringKind
	}
	var val edlisp.Value
	var err error
	msg, panicked := zv.Catch(func() { val, err = run(b, p) })
	zv.Assert(!panicked, "no panic: "+msg)
	if bad {
		zv.Assert(err != nil, "a malformed instruction is an error")
		zv.Assert(snap(b) == before, "a malformed instruction changes nothing")
		zv.Cover("malformed")
	} else {
		zv.Assert(err == nil && val != nil, "a literal evaluates to itself")
		zv.Cover("literal")
	}
}
