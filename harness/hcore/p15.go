package hcore

import (
	"errors"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

var errOwn = errors.New("own error")

// logEnv is the default environment with functions that record their calls:
// "t" logs its string argument and returns it, "fail" logs and returns errOwn,
// "edit" inserts its argument at the beginning and moves point and mark.
func logEnv(log *string) *edlisp.Environment {
	env := edlisp.NewDefaultEnvironment()
	arg := func(args []edlisp.Value) string {
		s := ""
		for _, a := range args {
			s += a.(*edlisp.String).Value
		}
		return s
	}
	env.Functions["t"] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
		*log += "(" + arg(args) + ")"
		return str(arg(args)), nil
	}
	env.Functions["fail"] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
		*log += "!" + arg(args)
		return nil, errOwn
	}
	env.Functions["edit"] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
		*log += "{" + arg(args) + "}"
		b.SetPoint(b.Point() + 1)
		b.Insert(arg(args))
		b.SetMark(b.Point() - 1)
		return str("e" + arg(args)), nil
	}
	return env
}

// model runs v by the documented rules, on a buffer of its own.
func model(v edlisp.Value, b *edlisp.Buffer, log *string) (out string, ok bool, own bool) {
	switch x := v.(type) {
	case *edlisp.String:
		return x.Value, true, false
	case *edlisp.List:
		if x.Len() == 0 {
			return "", false, false
		}
		f, is := x.Elements[0].(*edlisp.Symbol)
		if !is || f.Name == "undefined" {
			return "", false, false
		}
		all := ""
		for _, a := range x.Elements[1:] {
			s, ok, own := model(a, b, log)
			if !ok {
				return "", false, own
			}
			all += s
		}
		switch f.Name {
		case "t":
			*log += "(" + all + ")"
			return all, true, false
		case "fail":
			*log += "!" + all
			return "", false, true
		case "edit":
			*log += "{" + all + "}"
			b.SetPoint(b.Point() + 1)
			b.Insert(all)
			b.SetMark(b.Point() - 1)
			return "e" + all, true, false
		}
	}
	return "", false, false
}

// call makes an arbitrary instruction; depth bounds the nesting of its arguments.
func call(label string, depth, width int) edlisp.Value {
	k := 4
	if depth == 0 {
		k = 6
	}
	els := []edlisp.Value{}
	switch zv.Choose(label, k) {
	case 0:
		els = append(els, sym("t"))
	case 1:
		els = append(els, sym("edit"))
	case 2:
		els = append(els, sym("fail"))
	case 3:
		els = append(els, sym("undefined"))
	case 4:
		return list()
	case 5:
		return list(str("t"), str("u"))
	}
	for i := zv.Choose(label+"args", width+1); i > 0; i-- {
		if depth > 0 && zv.Bool(label+"nested") {
			els = append(els, call(label+".", depth-1, 1))
		} else {
			els = append(els, str(zv.Str(label+"s", 1, "ab")))
		}
	}
	return list(els...)
}

// Bounds: programs of 0..3 instructions, each one of 4 functions (one recording, one editing and moving point and mark, one failing, one
// undefined) with up to 1 argument, a string or a call of the same kind nested to depth 0 (thorough 1), plus one instruction with up to 2 nested arguments; strings of up to
// 1 byte; buffer of up to 1 byte; compared with a reference evaluator; trace callback on and off.
func P15_order() {
	text := anyText(1, "xy")
	var prog []edlisp.Value
	if zv.Bool("wide") {
		prog = []edlisp.Value{call("w", 1, 2), list(sym("t"), str("z"))}
		if zv.Bool("last") {
			prog = prog[:1]
		}
	} else {
		for i := zv.Choose("n", 4); i > 0; i-- {
			prog = append(prog, call("i"+string(rune('0'+i)), tq(0, 1), 1))
		}
	}
	log, want := "", ""
	b, mb := edlisp.NewBuffer(text), edlisp.NewBuffer(text)
	env := logEnv(&log)
	traced := zv.Bool("traced")
	calls := 0
	callsAtEnd := 0
	var v edlisp.Value
	var err error
	if traced {
		v, err = edlisp.EvalWithTrace(prog, env, b, func(c *edlisp.TraceContext) {
			zv.Assert(calls < len(prog) && c.Instruction == prog[calls], "the callback is called once per instruction, in order, with that instruction")
			zv.Assert(c.Buffer == b && c.Environment == env, "the callback gets the buffer and environment of the execution")
			log += "|"
			calls++
		})
	} else {
		v, err = edlisp.Eval(prog, env, b)
	}
	failed, own := -1, false
	last := ""
	for i, x := range prog {
		s, ok, o := model(x, mb, &want)
		if !ok {
			failed, own = i, o
			break
		}
		last = s
		callsAtEnd++
		if traced {
			want += "|"
		}
	}
	zv.Assert(log == want, "calls happen in order, arguments left to right before the call, nothing after an error, one callback after each successful instruction")
	zv.Assert(!traced || calls == callsAtEnd, "the callback runs exactly once for each successful instruction")
	zv.Assert(snap(b) == snap(mb), "the buffer holds exactly the effects of the instructions before the error")
	if failed < 0 {
		zv.Assert(err == nil, "a program without a failing instruction succeeds")
		zv.Assert(isStr(v, last), "the value is that of the last instruction, an empty string for an empty program")
		zv.Cover("value")
		return
	}
	zv.Cover("error")
	zv.Assert(err != nil && v == nil, "a failing instruction makes the program fail")
	var ee *edlisp.ExecutionError
	zv.Assert(errors.As(err, &ee), "the error is an ExecutionError")
	zv.Assert(ee.InstructionIndex == failed && ee.CurrentInstruction == prog[failed], "the error names the failing instruction and its 0-based index")
	zv.Assert(len(ee.Program) == len(prog) && ee.Environment == env, "the error carries the program and environment")
	zv.Assert(ee.BufferContents == mb.String() && ee.Point == mb.Point() && ee.Mark == mb.Mark(), "the error carries text, point and mark at that moment")
	zv.Assert(errors.Is(err, errOwn) == own && errors.Unwrap(err) == ee.OriginalError && ee.OriginalError != nil, "the error unwraps to the original error")
	if own {
		zv.Assert(ee.OriginalError == errOwn, "the original error is the one the function returned")
		zv.Cover("own")
	}
}

// Bounds: text up to 3 (thorough 4) bytes of "ab\n" with arbitrary point and mark; a search of one letter that may fail, then an instruction of 6 kinds, then one that fails; the error's state is compared with the
// state the program without the failing instruction leaves.
func P15_error_state() {
	text := anyText(tq(3, 4), "ab\n")
	pre := []edlisp.Value{instr("search-forward", str(zv.StrN("needle", 1, "ab"))), nil}
	switch zv.Choose("second", 6) {
	case 0:
		pre[1] = instr("replace-match", str("z"))
	case 1:
		pre[1] = instr("delete-backward-char")
	case 2:
		pre[1] = instr("set-mark")
	case 3:
		pre[1] = instr("re-search-backward", str("[ab]+"))
	case 4:
		pre[1] = instr("search-backward", str("b"))
	case 5:
		pre[1] = instr("goto-line", inum(2))
	}
	bad := []edlisp.Value{instr("search-forward", str("zz")), instr("insert"), instr("nonsense"), list(), instr("insert", instr("upcase", inum(1)))}[zv.Choose("bad", 5)]
	pt, mk := anyPos("point", text), anyPos("mark", text)
	mkbuf := func() *edlisp.Buffer {
		b := edlisp.NewBuffer(text)
		b.SetPoint(pt)
		b.SetMark(mk)
		return b
	}
	ref := mkbuf()
	at := 0
	for ; at < len(pre); at++ {
		if _, err := run(ref, pre[at]); err != nil {
			break
		}
	}
	want := snapFull(ref)
	b := mkbuf()
	prog := []edlisp.Value{pre[0], pre[1], bad, instr("insert", str("never"))}
	calls := 0
	_, err := edlisp.EvalWithTrace(prog, edlisp.NewDefaultEnvironment(), b, func(*edlisp.TraceContext) { calls++ })
	zv.Assert(err != nil, "the program fails")
	var ee *edlisp.ExecutionError
	zv.Assert(errors.As(err, &ee), "the error is an ExecutionError")
	zv.Assert(ee.InstructionIndex == at && calls == at, "the error names the first failing instruction, the callback ran for those before it")
	zv.Assert(ee.CurrentInstruction == prog[at], "the error carries the failing instruction")
	zv.Assert(ee.BufferContents == want.text && ee.Point == want.pt && ee.Mark == want.mark, "the error carries text, point and mark at that moment")
	zv.Assert(ee.LastSearchMatch == want.match && ee.LastSearchStart == want.start && ee.LastSearchEnd == want.end, "the error carries the last match at that moment")
	zv.Assert(snapFull(b) == want, "no later instruction has any effect")
	if at == 2 {
		zv.Cover("third")
	}
	if want.match != "" && at == 2 {
		zv.Cover("match")
	}
}

// Bounds: programs of up to 3 expressions, each a string, a number, a symbol, one of 5 calls, of which one is shared by all that contain it; traced or not: a string or number is its own value and has
// no effect, what a symbol is the code under test decides by its first evaluation; the callback runs after each one that succeeds.
func P15_atoms() {
	shared := list(sym("t"), str(zv.Str("shared", 1, "ab")))
	expr := func(label string) edlisp.Value {
		switch zv.Choose(label, 8) {
		case 0:
			return str(zv.Str(label+"s", 1, "ab"))
		case 1:
			return inum(zv.IntRange(label+"n", -1, 1))
		case 2:
			return sym("a")
		case 3:
			return shared
		case 4:
			return list(sym("t"), shared, shared)
		case 5:
			return list(sym("edit"), str("c"), shared)
		case 6:
			return list(sym("fail"), shared)
		}
		return list(sym("t"))
	}
	var prog []edlisp.Value
	for i := zv.Choose("n", 4); i > 0; i-- {
		prog = append(prog, expr("e"+string(rune('0'+i))))
	}
	log, want := "", ""
	b, mb := edlisp.NewBuffer("xy"), edlisp.NewBuffer("xy")
	var last edlisp.Value = str("")
	failed := -1
	for i, x := range prog {
		switch y := x.(type) {
		case *edlisp.List:
			s, ok, _ := model(y, mb, &want)
			if !ok {
				failed = i
			}
			last = str(s)
		case *edlisp.Symbol:
			// a symbol alone: a value, or an error
			v, err := edlisp.Eval([]edlisp.Value{y}, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer("xy"))
			if err != nil {
				failed = i
			}
			last = v
		default:
			last = x
		}
		if failed >= 0 {
			break
		}
		want += "|"
	}
	env := logEnv(&log)
	calls := 0
	var v edlisp.Value
	var err error
	if zv.Choose("traced", 2) == 1 {
		v, err = edlisp.EvalWithTrace(prog, env, b, func(c *edlisp.TraceContext) {
			zv.Assert(calls < len(prog) && c.Instruction == prog[calls] && c.Buffer == b, "the callback is called once per instruction, in order, with that instruction")
			calls++
			log += "|"
		})
		zv.Assert(log == want, "each instruction is evaluated once, in order, with one callback after it when it succeeds")
	} else {
		v, err = edlisp.Eval(prog, env, b)
		w := ""
		for i := 0; i < len(want); i++ {
			if want[i] != '|' {
				w += want[i : i+1]
			}
		}
		zv.Assert(log == w, "each instruction is evaluated once, in order")
	}
	zv.Assert(snap(b) == snap(mb), "the buffer holds exactly the effects of the instructions before the error")
	zv.Assert((err != nil) == (failed >= 0), "a program fails exactly when an instruction does")
	if err == nil {
		zv.Assert(edlisp.Equal(v, last), "the value is that of the last instruction, an empty string for an empty program")
		zv.Cover("value")
		return
	}
	var ee *edlisp.ExecutionError
	zv.Assert(errors.As(err, &ee) && ee.InstructionIndex == failed && ee.CurrentInstruction == prog[failed], "the error names the failing instruction and its 0-based index")
	zv.Cover("error")
}
