// Package hcore holds the harnesses for the edlisp core. Exported functions
// named Pnn_xxx are harness entry points for property Pnn; the rest are
// helpers and reference models. Only the public API of the code under test is used.
package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// state is the observable state of a buffer.
type state struct {
	text     string
	pt, mark int
}

func snap(b *edlisp.Buffer) state { return state{b.String(), b.Point(), b.Mark()} }

// tq picks a bound by tier.
func tq(quick, thorough int) int {
	if zv.Tier() > 0 {
		return thorough
	}
	return quick
}

// newBuf makes a buffer holding text with arbitrary valid point and mark,
// that remembers a match or not (short texts), or does not (long ones).
func newBuf(text string) *edlisp.Buffer {
	if len(text) <= tq(2, 3) {
		b := edlisp.NewBuffer(text)
		remember(b, 1)
		return b
	}
	return placed(text)
}

// placed makes a new buffer with arbitrary valid point and mark that remembers no match.
func placed(text string) *edlisp.Buffer {
	b := edlisp.NewBuffer(text)
	b.SetPoint(anyPos("point", text))
	b.SetMark(anyPos("mark", text))
	return b
}

// bufAt makes a buffer with an arbitrary valid point and mark 1.
func bufAt(text string) *edlisp.Buffer {
	b := edlisp.NewBuffer(text)
	if n := len(text); n == 1 || n == 2 {
		if zv.Bool("used") {
			used(b)
		}
	}
	b.SetPoint(anyPos("point", text))
	b.SetMark(1)
	return b
}

func sym(s string) edlisp.Value           { return edlisp.NewSymbol(s) }
func str(s string) edlisp.Value           { return edlisp.NewString(s) }
func num(n float64) edlisp.Value          { return edlisp.NewNumber(n) }
func inum(n int) edlisp.Value             { return edlisp.NewNumber(float64(n)) }
func list(v ...edlisp.Value) edlisp.Value { return edlisp.NewList(v...) }

func instr(name string, args ...edlisp.Value) edlisp.Value {
	v := append([]edlisp.Value{sym(name)}, args...)
	return edlisp.NewList(v...)
}

// do runs one instruction through Eval.
func do(b *edlisp.Buffer, name string, args ...edlisp.Value) (edlisp.Value, error) {
	return edlisp.Eval([]edlisp.Value{instr(name, args...)}, edlisp.NewDefaultEnvironment(), b)
}

// run evaluates a program in a fresh environment.
func run(b *edlisp.Buffer, prog ...edlisp.Value) (edlisp.Value, error) {
	return edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b)
}

func isNum(v edlisp.Value, n int) bool {
	x, ok := v.(*edlisp.Number)
	return ok && x.Value == float64(n)
}

func isStr(v edlisp.Value, s string) bool {
	x, ok := v.(*edlisp.String)
	return ok && x.Value == s
}

func isSym(v edlisp.Value, s string) bool {
	x, ok := v.(*edlisp.Symbol)
	return ok && x.Name == s
}

func clip(n, lo, hi int) int {
	if n < lo {
		return lo
	}
	if n > hi {
		return hi
	}
	return n
}

// clipFloat is the documented meaning of a numeric position argument:
// truncation towards zero, then clipping; not for NaN.
func clipFloat(f float64, lo, hi int) int {
	if f >= float64(hi) {
		return hi
	}
	if f <= float64(lo) {
		return lo
	}
	return int(f)
}
