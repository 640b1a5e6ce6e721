package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// ready makes a buffer in which every function can succeed.
func ready() *edlisp.Buffer {
	b := edlisp.NewBuffer("a1 a\nba")
	b.SetMark(2)
	b.SetPoint(2)
	do(b, "search-forward", str("a"))
	return b
}

// Bounds: every function of the default environment in one state where each can succeed; 0..5 arguments (up to 8 for a variadic one), each of the documented kind (numbers 1..2, the string "a") or, at one place, of another kind:
// another atom, an empty string value of a call, or a call giving a symbol; numbers symbolic.
func P29_documented_arguments() {
	s := builtins[zv.Choose("function", len(builtins))]
	doc, ok := edlisp.GetDocumentation(s.name)
	zv.Assert(ok, "every function is documented")
	variadic := s.args == "*"
	lo, hi := 0, len(doc.Parameters)
	for _, p := range doc.Parameters {
		if !p.Optional && !variadic {
			lo++
		}
	}
	if variadic {
		hi = 8
	}
	n := zv.Choose("arguments", 6)
	if variadic && n == 5 {
		n = 8
	}
	wrong := zv.Choose("wrong", n+1) - 1
	var args []edlisp.Value
	for i := 0; i < n; i++ {
		kind := "string"
		if i < len(doc.Parameters) {
			kind = doc.Parameters[i].Type
		}
		zv.Assert(kind == "string" || kind == "number", "parameter types are values a script can give")
		if i == wrong {
			switch zv.Choose("kind", 3) {
			case 0:
				if kind == "string" {
					args = append(args, inum(zv.IntRange("w", -1, 2)))
				} else {
					args = append(args, str(zv.Str("w", 1, "1a")))
				}
			case 1:
				args = append(args, instr("looking-at", str("a")))
			case 2:
				if kind == "string" {
					args = append(args, instr("point"))
				} else {
					args = append(args, instr("concat"))
				}
			}
		} else if kind == "string" {
			args = append(args, str("a"))
		} else {
			args = append(args, inum(zv.IntRange("n"+string(rune('0'+i)), 1, 2)))
		}
	}
	b := ready()
	before := snapFull(b)
	_, err := do(b, s.name, args...)
	if wrong < 0 && n >= lo && n <= hi {
		zv.Assert(err == nil, "the documented arguments are accepted: "+s.name)
		zv.Cover("accepted")
		return
	}
	zv.Assert(err != nil, "arguments that are not documented are rejected: "+s.name)
	zv.Assert(snapFull(b) == before, "a rejected call changes nothing: "+s.name)
	zv.Cover("rejected")
}
