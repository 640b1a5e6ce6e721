package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// native converts a value to a Go value for formatting with the real fmt package.
func (w *W) nativeScalar(t types.Type, v Value) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.(type) {
	case *Str:
		return w.goStr(x), true
	case *Term:
		u := w.renderVal(x)
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return u != 0, true
		case types.Int, types.UntypedInt:
			return int(sext(u, 64)), true
		case types.Int8:
			return int8(u), true
		case types.Int16:
			return int16(u), true
		case types.Int32, types.UntypedRune:
			return int32(u), true
		case types.Int64:
			return int64(u), true
		case types.Uint:
			return uint(u), true
		case types.Uint8:
			return uint8(u), true
		case types.Uint16:
			return uint16(u), true
		case types.Uint32:
			return uint32(u), true
		case types.Uint64:
			return u, true
		case types.Uintptr:
			return uintptr(u), true
		case types.Float64, types.UntypedFloat:
			return math.Float64frombits(u), true
		case types.Float32:
			return math.Float32frombits(uint32(u)), true
		}
	}
	return nil, false
}

// renderVal picks the number to print: exact when constant or narrowly ranged, else a witness.
func (w *W) renderVal(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if t.sort.K == kBool || w.exactFmt {
		return w.concBool(t)
	}
	return w.witness(t)
}

func (w *W) concBool(t *Term) uint64 {
	if t.sort.K == kBool {
		if w.branch(t) {
			return 1
		}
		return 0
	}
	return w.concretize(t)
}

func (w *W) fmtArg(verb byte, spec string, a Iface, depth int) *Str {
	if depth > 40 {
		w.unsupported("deep formatting")
	}
	plain := len(spec) == 2
	if verb == 'T' {
		if a.t == nil {
			return cstr("<nil>")
		}
		return cstr(typeName(a.t))
	}
	if a.t == nil {
		if verb == 'v' {
			return cstr("<nil>")
		}
		return cstr(fmt.Sprintf(spec, nil))
	}
	if verb == 'w' {
		verb = 'v'
		spec = spec[:len(spec)-1] + "v"
	}
	sharp := strings.Contains(spec, "#")
	if !sharp && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		if _, isN := a.v.(*nativeObj); isN || w.isError(a) {
			if p, ok := a.v.(*Value); ok && p == nil {
				return cstr("<nil>")
			}
			return w.fmtStr(verb, spec, w.errStr(a))
		}
		if w.implements(a.t, w.sh.stringerType) {
			if p, ok := a.v.(*Value); ok && p == nil {
				return cstr("<nil>")
			}
			r, _ := w.callMethod(a, "String")
			return w.fmtStr(verb, spec, r.(*Str))
		}
	}
	switch x := a.v.(type) {
	case *Str:
		if sharp && verb == 'v' {
			return w.fmtStr('q', "%q", x)
		}
		return w.fmtStr(verb, spec, x)
	case *Term:
		n, ok := w.nativeScalar(a.t, x)
		if !ok {
			w.unsupported("format of " + a.t.String())
		}
		return cstr(fmt.Sprintf(spec, n))
	case []Value:
		st := a.t.Underlying().(*types.Slice)
		if bt, ok := st.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 && verb != 'v' && verb != 'd' {
			return w.fmtStr(verb, spec, w.bytesToStr(x))
		}
		out := cstr("[")
		for i, e := range x {
			if i > 0 {
				out = w.sconcat(out, cstr(" "))
			}
			out = w.sconcat(out, w.fmtArg(verb, spec, w.toIface(st.Elem(), e), depth+1))
		}
		return w.sconcat(out, cstr("]"))
	case StructV:
		st := a.t.Underlying().(*types.Struct)
		out := cstr("{")
		for i, e := range x {
			if i > 0 {
				out = w.sconcat(out, cstr(" "))
			}
			if strings.Contains(spec, "+") {
				out = w.sconcat(out, cstr(st.Field(i).Name()+":"))
			}
			out = w.sconcat(out, w.fmtArg(verb, spec, w.toIface(st.Field(i).Type(), e), depth+1))
		}
		return w.sconcat(out, cstr("}"))
	case *Value:
		if x == nil {
			return cstr("<nil>")
		}
		if _, ok := (*x).(StructV); ok && depth == 0 && plain {
			return w.sconcat(cstr("&"), w.fmtArg(verb, spec, Iface{deref(a.t), *x}, depth+1))
		}
		return cstr("0xc000000000")
	case *Map:
		mt := a.t.Underlying().(*types.Map)
		out := cstr("map[")
		if x != nil {
			for i, e := range w.mapSorted(x) {
				if i > 0 {
					out = w.sconcat(out, cstr(" "))
				}
				out = w.sconcat(out, w.fmtArg(verb, spec, w.toIface(mt.Key(), e.k), depth+1))
				out = w.sconcat(out, cstr(":"))
				out = w.sconcat(out, w.fmtArg(verb, spec, w.toIface(mt.Elem(), e.v), depth+1))
			}
		}
		return w.sconcat(out, cstr("]"))
	case *ssa.Function, *Closure, NilFunc, *BoundNative:
		return cstr("0x400000")
	}
	if plain && plainPlaceholder {
		return cstr("?")
	}
	w.unsupported(fmt.Sprintf("format of %T", a.v))
	return nil
}

const plainPlaceholder = false

func (w *W) toIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok && types.IsInterface(t) {
		return i
	}
	return Iface{t, v}
}

func (w *W) mapSorted(m *Map) []*mapEntry {
	old := w.mapMode
	w.mapMode = 0
	es := w.mapOrder(m)
	w.mapMode = old
	for i := 1; i < len(es); i++ {
		for j := i; j > 0; j-- {
			a, _ := w.mkey(es[j].k)
			b, _ := w.mkey(es[j-1].k)
			if a >= b {
				break
			}
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	return es
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *W) fmtStr(verb byte, spec string, s *Str) *Str {
	if len(spec) == 2 {
		switch verb {
		case 'v', 's':
			return s
		case 'q':
			if s.conc() {
				return cstr(fmt.Sprintf("%q", s.s))
			}
			return w.call(w.sh.funcByName("strconv", "Quote"), []Value{s}).(*Str)
		}
	}
	if s.conc() {
		if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
			return cstr(fmt.Sprintf(spec, s.s))
		}
		return cstr(fmt.Sprintf(spec, s.s))
	}
	return cstr(fmt.Sprintf(spec, w.goStr(s)))
}

// sprintf implements fmt.Sprintf over symbolic arguments; it also returns the %w operands.
func (w *W) sprintf(format string, args []Value) (*Str, []Value) {
	out := emptyStr
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			out = w.sconcat(out, cstr(lit.String()))
			lit.Reset()
		}
	}
	var wrapped []Value
	ai := 0
	reordered := false
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			lit.WriteByte(c)
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		idx := ""
		if j < len(format) && format[j] == '[' {
			k := strings.IndexByte(format[j:], ']')
			n, err := 0, error(nil)
			if k > 0 {
				n, err = strconv.Atoi(format[j+1 : j+k])
			}
			if k <= 0 || err != nil || n < 1 || n > len(args) {
				w.unsupported("fmt [ in " + format)
			}
			idx = format[j : j+k+1]
			ai = n - 1
			j += k + 1
			reordered = true
		}
		if j < len(format) && format[j] == '*' {
			w.unsupported("fmt * in " + format)
		}
		if j >= len(format) {
			lit.WriteString("%!(NOVERB)")
			break
		}
		verb := format[j]
		spec := strings.Replace(format[i:j+1], idx, "", 1)
		i = j + 1
		if verb == '%' {
			lit.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			lit.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' && w.isError(a) {
			wrapped = append(wrapped, a)
		}
		flush()
		out = w.sconcat(out, w.fmtArg(verb, spec, a, 0))
	}
	if !reordered && ai < len(args) {
		lit.WriteString("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				lit.WriteString(", ")
			}
			a := args[k].(Iface)
			if a.t == nil {
				lit.WriteString("<nil>")
				continue
			}
			lit.WriteString(typeName(a.t) + "=")
			flush()
			out = w.sconcat(out, w.fmtArg('v', "%v", a, 0))
		}
		lit.WriteString(")")
	}
	flush()
	return out, wrapped
}

func (w *W) sprint(args []Value, ln bool) *Str {
	out := emptyStr
	prevStr := false
	for i, x := range args {
		a := x.(Iface)
		isStr := false
		if a.t != nil {
			b, ok := a.t.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
			_ = b
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = w.sconcat(out, cstr(" "))
		}
		out = w.sconcat(out, w.fmtArg('v', "%v", a, 0))
		prevStr = isStr
	}
	if ln {
		out = w.sconcat(out, cstr("\n"))
	}
	return out
}

func (w *W) writeTo(wr Value, s *Str) Value {
	i := wr.(Iface)
	if i.t == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	r, ok := w.callMethod(i, "Write", w.strToBytes(s))
	if !ok {
		w.unsupported("Write on " + i.t.String())
	}
	return r
}

func vargs(v Value) []Value { x, _ := v.([]Value); return x }

func fmtIntrinsics(T map[string]intrinsic) {
	T["fmt.Sprintf"] = always(func(w *W, a []Value) Value { s, _ := w.sprintf(w.goStr(a[0]), vargs(a[1])); return s })
	T["fmt.Sprint"] = always(func(w *W, a []Value) Value { return w.sprint(vargs(a[0]), false) })
	T["fmt.Sprintln"] = always(func(w *W, a []Value) Value { return w.sprint(vargs(a[0]), true) })
	T["fmt.Fprintf"] = always(func(w *W, a []Value) Value {
		s, _ := w.sprintf(w.goStr(a[1]), vargs(a[2]))
		return w.writeTo(a[0], s)
	})
	T["fmt.Fprint"] = always(func(w *W, a []Value) Value { return w.writeTo(a[0], w.sprint(vargs(a[1]), false)) })
	T["fmt.Fprintln"] = always(func(w *W, a []Value) Value { return w.writeTo(a[0], w.sprint(vargs(a[1]), true)) })
	T["fmt.Printf"] = always(func(w *W, a []Value) Value {
		s, _ := w.sprintf(w.goStr(a[0]), vargs(a[1]))
		return w.stdoutWrite(s)
	})
	T["fmt.Print"] = always(func(w *W, a []Value) Value { return w.stdoutWrite(w.sprint(vargs(a[0]), false)) })
	T["fmt.Println"] = always(func(w *W, a []Value) Value { return w.stdoutWrite(w.sprint(vargs(a[0]), true)) })
	T["fmt.Errorf"] = always(func(w *W, a []Value) Value {
		s, wr := w.sprintf(w.goStr(a[0]), vargs(a[1]))
		p := new(Value)
		switch len(wr) {
		case 0:
			*p = StructV{s}
			return Iface{w.sh.ptrTo("errors", "errorString"), p}
		case 1:
			*p = StructV{s, wr[0]}
			return Iface{w.sh.ptrTo("fmt", "wrapError"), p}
		}
		*p = StructV{s, []Value(wr)}
		return Iface{w.sh.ptrTo("fmt", "wrapErrors"), p}
	})
	T["fmt.Appendf"] = always(func(w *W, a []Value) Value {
		s, _ := w.sprintf(w.goStr(a[1]), vargs(a[2]))
		d, _ := a[0].([]Value)
		return w.appendVals(d, w.strToBytes(s))
	})
	for _, n := range []string{"wrapError", "wrapErrors"} {
		T["(*fmt."+n+").Error"] = always(func(w *W, a []Value) Value { return (*w.ptr(a[0])).(StructV)[0] })
		T["(*fmt."+n+").Unwrap"] = always(func(w *W, a []Value) Value { return (*w.ptr(a[0])).(StructV)[1] })
	}
}
