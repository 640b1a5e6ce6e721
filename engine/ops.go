package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (w *W) binop(op token.Token, xt types.Type, x, y Value, yt types.Type) Value {
	tb := w.tb
	switch op {
	case token.EQL:
		return w.equal(x, y)
	case token.NEQ:
		return tb.not(w.equal(x, y))
	}
	if a, ok := x.(*Str); ok {
		b := y.(*Str)
		switch op {
		case token.ADD:
			return w.sconcat(a, b)
		case token.LSS:
			return w.slt(a, b)
		case token.GTR:
			return w.slt(b, a)
		case token.LEQ:
			return tb.not(w.slt(b, a))
		case token.GEQ:
			return tb.not(w.slt(a, b))
		}
	}
	a, ok := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok || !ok2 {
		w.unsupported(fmt.Sprintf("binop %s on %T,%T", op, x, y))
	}
	if a.sort.K == kFP {
		switch op {
		case token.ADD:
			return tb.bin(opFAdd, a, b)
		case token.SUB:
			return tb.bin(opFSub, a, b)
		case token.MUL:
			return tb.bin(opFMul, a, b)
		case token.QUO:
			return tb.bin(opFDiv, a, b)
		case token.LSS:
			return tb.bin(opFLt, a, b)
		case token.LEQ:
			return tb.bin(opFLe, a, b)
		case token.GTR:
			return tb.bin(opFLt, b, a)
		case token.GEQ:
			return tb.bin(opFLe, b, a)
		}
		w.unsupported("float op " + op.String())
	}
	if a.sort.K == kBool {
		switch op {
		case token.AND, token.LAND:
			return tb.and(a, b)
		case token.OR, token.LOR:
			return tb.or(a, b)
		}
		w.unsupported("bool op " + op.String())
	}
	bt, _ := xt.Underlying().(*types.Basic)
	_, signed := basicSort(bt)
	lt, le := opULt, opULe
	if signed {
		lt, le = opSLt, opSLe
	}
	switch op {
	case token.SHL, token.SHR:
		ybt := yt.Underlying().(*types.Basic)
		_, ysigned := basicSort(ybt)
		if ysigned {
			neg := tb.bin(opSLt, b, tb.konst(b.sort, 0))
			if w.branch(neg) {
				w.rtPanic("negative shift amount")
			}
		}
		wd := a.sort.W
		a64, b64 := tb.resize(a, 64, signed), tb.resize(b, 64, false)
		o := opShl
		if op == token.SHR {
			o = opLShr
			if signed {
				o = opAShr
			}
		}
		return tb.resize(tb.bin(o, a64, b64), wd, signed)
	}
	switch op {
	case token.ADD:
		return tb.bin(opAdd, a, b)
	case token.SUB:
		return tb.bin(opSub, a, b)
	case token.MUL:
		return tb.bin(opMul, a, b)
	case token.AND:
		return tb.bin(opBAnd, a, b)
	case token.OR:
		return tb.bin(opBOr, a, b)
	case token.XOR:
		return tb.bin(opBXor, a, b)
	case token.AND_NOT:
		return tb.bin(opBAnd, a, tb.un(opBNot, b))
	case token.LSS:
		return tb.bin(lt, a, b)
	case token.LEQ:
		return tb.bin(le, a, b)
	case token.GTR:
		return tb.bin(lt, b, a)
	case token.GEQ:
		return tb.bin(le, b, a)
	case token.QUO, token.REM:
		if w.branch(tb.eq(b, tb.konst(b.sort, 0))) {
			w.rtPanic("integer divide by zero")
		}
		o := opUDiv
		switch {
		case op == token.QUO && signed:
			o = opSDiv
		case op == token.REM && signed:
			o = opSRem
		case op == token.REM:
			o = opURem
		}
		return tb.bin(o, a, b)
	}
	w.unsupported("op " + op.String())
	return nil
}

func (w *W) unop(in *ssa.UnOp, x Value) Value {
	tb := w.tb
	switch in.Op {
	case token.MUL:
		return copyVal(*w.ptr(x))
	case token.NOT:
		return tb.not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.sort.K == kFP {
			return tb.un(opFNeg, t)
		}
		return tb.bin(opSub, tb.konst(t.sort, 0), t)
	case token.XOR:
		return tb.un(opBNot, x.(*Term))
	case token.ARROW:
		ch, _ := x.(*Chan)
		if w.spec > 0 {
			panic(specAbort{})
		}
		v, ok := w.chanRecv(ch, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, w.boolV(ok)}
		}
		return v
	}
	w.unsupported("unop " + in.Op.String())
	return nil
}

func (w *W) convert(from, to types.Type, v Value) Value {
	tb := w.tb
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Slice:
		s, ok := v.(*Str)
		if !ok {
			if x, ok := v.([]Value); ok {
				return x
			}
			w.unsupported("convert to slice")
		}
		if eb := t.Elem().Underlying().(*types.Basic); eb.Kind() == types.Uint8 {
			return w.strToBytes(s)
		}
		var out []Value
		for i, n := 0, w.slen(s); i < n; {
			r, k := w.decodeRune(s, i)
			out = append(out, r)
			i += k
		}
		if out == nil {
			out = []Value{}
		}
		return out
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case *Str:
				return x
			case []Value:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return w.bytesToStr(x)
				}
				var bs []*Term
				for _, r := range x {
					bs = append(bs, w.encodeRune(r.(*Term))...)
				}
				return w.mkStr(bs)
			case *Term:
				fb := fu.(*types.Basic)
				_, signed := basicSort(fb)
				r := tb.resize(x, 64, signed)
				if r.isConst() {
					i := int64(r.val)
					if i < 0 || i > utf8.MaxRune {
						i = utf8.RuneError
					}
					return cstr(string(rune(i)))
				}
				return w.mkStr(w.encodeRune(tb.resize(x, 32, signed)))
			}
		}
		if t.Kind() == types.UnsafePointer {
			return v
		}
		x, ok := v.(*Term)
		if !ok {
			if t.Kind() == types.Uintptr {
				return tb.konst(sBV64, 4096)
			}
			break
		}
		fb := fu.(*types.Basic)
		_, fsigned := basicSort(fb)
		ts, tsigned := basicSort(t)
		switch {
		case x.sort.K == kBV && ts.K == kBV:
			return tb.resize(x, ts.W, fsigned)
		case x.sort.K == kBV && ts == sFP64:
			if fsigned {
				return tb.fFromS(tb.resize(x, 64, true))
			}
			return tb.fFromU(tb.resize(x, 64, false))
		case x.sort == sFP64 && ts.K == kBV:
			if !tsigned && ts.W == 64 {
				if x.isConst() {
					return tb.konst(ts, uint64(math.Float64frombits(x.val)))
				}
				// values below 2^63 agree with the signed conversion; others are not modelled
				if !w.branch(tb.bin(opFLt, x, tb.floatT(9223372036854775808.0))) {
					w.unsupported("float to uint64 out of int64 range")
				}
			}
			return tb.resize(tb.fToS(x), ts.W, true)
		case x.sort.K == kFP && ts == x.sort:
			return x
		case x.sort.K == kFP && ts.K == kFP && x.isConst():
			if ts.W == 32 {
				return tb.konst(sFP32, uint64(math.Float32bits(float32(math.Float64frombits(x.val)))))
			}
			return tb.floatT(float64(math.Float32frombits(uint32(x.val))))
		}
	case *types.Pointer:
		return v
	case *types.Struct, *types.Map, *types.Signature, *types.Array:
		return v
	}
	w.unsupported(fmt.Sprintf("convert %s to %s", from, to))
	return nil
}

func growCap(old, need int) int {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	c := old
	for c < need {
		c += (c + 3*256) / 4
	}
	return c
}

func (w *W) appendVals(s []Value, add []Value) []Value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		out := s[:n]
		for i, v := range add {
			w.storeNew(&out[len(s)+i], v)
		}
		return out
	}
	out := make([]Value, n, growCap(cap(s), n))
	for i, v := range s {
		out[i] = copyVal(v)
	}
	for i, v := range add {
		out[len(s)+i] = copyVal(v)
	}
	return out
}

// storeNew stores into a slot of a slice's spare capacity.
func (w *W) storeNew(p *Value, v Value) {
	if *p == nil {
		w.store1(p, copyVal(v))
		return
	}
	w.storeVal(p, v)
}

func (w *W) builtin(b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	tb := w.tb
	switch b.Name() {
	case "append":
		s, _ := args[0].([]Value)
		if len(args) == 1 {
			return s
		}
		switch x := args[1].(type) {
		case *Str:
			return w.appendVals(s, w.strToBytes(x))
		case []Value:
			return w.appendVals(s, x)
		}
	case "copy":
		d := args[0].([]Value)
		var s []Value
		switch x := args[1].(type) {
		case *Str:
			s = w.strToBytes(x)
		case []Value:
			s = x
		}
		n := min(len(d), len(s))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(s[i])
		}
		for i := range tmp {
			w.storeVal(&d[i], tmp[i])
		}
		return tb.int64T(int64(n))
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return tb.int64T(int64(w.slen(x)))
		case []Value:
			return tb.int64T(int64(len(x)))
		case *Map:
			if x == nil {
				return tb.int64T(0)
			}
			return tb.int64T(int64(x.live))
		case Arr:
			return tb.int64T(int64(len(x)))
		case *Value:
			return tb.int64T(int64(len((*x).(Arr))))
		case *Chan:
			if x == nil {
				return tb.int64T(0)
			}
			return tb.int64T(int64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case *Chan:
			if x == nil {
				return tb.int64T(0)
			}
			return tb.int64T(int64(x.cap))
		case []Value:
			return tb.int64T(int64(cap(x)))
		case Arr:
			return tb.int64T(int64(len(x)))
		}
	case "delete":
		m, _ := args[0].(*Map)
		if m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*mapEntry{}, x.entries...) {
					if !e.dead {
						w.mapDelete(x, e.k)
					}
				}
			}
			return nil
		case []Value:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.storeVal(&x[i], w.zero(et))
			}
			return nil
		}
	case "close":
		if w.spec > 0 {
			panic(specAbort{})
		}
		ch, _ := args[0].(*Chan)
		if ch == nil || ch.closed {
			w.rtPanic("close of nil or closed channel")
		}
		w.touch(ch)
		ch.closed = true
		w.preempt()
		return nil
	case "ssa:deferstack":
		return w.cur
	case "recover":
		// w.cur is the frame of the deferred function that calls recover
		if n := len(w.deferOwner); n > 0 {
			o := w.deferOwner[n-1]
			if o.panicking != nil && w.cur != nil && w.cur.caller == o {
				v := o.panicking.v
				o.panicking = nil
				return v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			var lt *Term
			if s, ok := r.(*Str); ok {
				lt = w.slt(x.(*Str), s)
				if w.branch(lt) == (b.Name() == "min") {
					r = x
				}
				continue
			}
			a, c := x.(*Term), r.(*Term)
			if a.sort.K == kFP {
				w.unsupported("float min/max")
			}
			_, signed := basicSort(cc.Args[0].Type().Underlying().(*types.Basic))
			o := opULt
			if signed {
				o = opSLt
			}
			lt = tb.bin(o, a, c)
			if b.Name() == "max" {
				lt = tb.bin(o, c, a)
			}
			r = tb.ite(lt, a, c)
		}
		return r
	case "ssa:wrapnilchk":
		p, ok := args[0].(*Value)
		if ok && p == nil {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		w.unsupported("unsafe.String")
	}
	w.unsupported("builtin " + b.Name())
	return nil
}
