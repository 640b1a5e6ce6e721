package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *W, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics map[string]intrinsic

func always(f func(w *W, a []Value) Value) intrinsic {
	return func(w *W, fn *ssa.Function, a []Value) (Value, bool) { return f(w, a), true }
}

func concStrs(a []Value) bool {
	for _, x := range a {
		switch s := x.(type) {
		case *Str:
			if !s.conc() {
				return false
			}
		case *Term:
			if !s.isConst() {
				return false
			}
		}
	}
	return true
}

// fast runs a native implementation when every argument is concrete.
func fast(f func(w *W, a []Value) Value) intrinsic {
	return func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if !concStrs(a) {
			return nil, false
		}
		return f(w, a), true
	}
}

func ss(v Value) string { return v.(*Str).s }
func ti(v Value) int64  { t := v.(*Term); return sext(t.val, t.sort.W) }

func (w *W) intV(i int) Value   { return w.tb.int64T(int64(i)) }
func (w *W) boolV(b bool) Value { return w.tb.boolT(b) }
func (w *W) strsV(s []string) Value {
	if s == nil {
		return []Value(nil)
	}
	out := make([]Value, len(s))
	for i, x := range s {
		out[i] = cstr(x)
	}
	return out
}

// indexTerm: first index of sub in s at or after 0, as one term.
func (w *W) indexTerm(s, sub *Str) *Term {
	tb := w.tb
	n, m := w.slen(s), w.slen(sub)
	r := tb.int64T(-1)
	for i := n - m; i >= 0; i-- {
		r = tb.ite(w.matchAt(s, sub, i), tb.int64T(int64(i)), r)
	}
	return r
}

func (w *W) lastIndexTerm(s, sub *Str) *Term {
	tb := w.tb
	n, m := w.slen(s), w.slen(sub)
	r := tb.int64T(-1)
	for i := 0; i <= n-m; i++ {
		r = tb.ite(w.matchAt(s, sub, i), tb.int64T(int64(i)), r)
	}
	return r
}

func (w *W) matchAt(s, sub *Str, i int) *Term {
	r := w.tb.tt
	for k, m := 0, w.slen(sub); k < m; k++ {
		r = w.tb.and(r, w.tb.eq(w.sat(s, i+k), w.sat(sub, k)))
		if r == w.tb.ff {
			break
		}
	}
	return r
}

func (w *W) indexByteTerm(b []*Term, c *Term) *Term {
	r := w.tb.int64T(-1)
	for i := len(b) - 1; i >= 0; i-- {
		r = w.tb.ite(w.tb.eq(b[i], c), w.tb.int64T(int64(i)), r)
	}
	return r
}

func (w *W) countByteTerm(b []*Term, c *Term) *Term {
	r := w.tb.int64T(0)
	for _, x := range b {
		r = w.tb.bin(opAdd, r, w.tb.ite(w.tb.eq(x, c), w.tb.int64T(1), w.tb.int64T(0)))
	}
	return r
}

func (w *W) valBytes(v Value) []*Term {
	x := v.([]Value)
	out := make([]*Term, len(x))
	for i := range x {
		out[i] = x[i].(*Term)
	}
	return out
}

// validTerm: s is valid UTF-8.
func (w *W) validTerm(b []*Term) *Term {
	tb := w.tb
	n := len(b)
	rg := func(x *Term, lo, hi byte) *Term {
		return tb.and(tb.bin(opULe, tb.byteT(lo), x), tb.bin(opULe, x, tb.byteT(hi)))
	}
	ok := make([]*Term, n+5)
	for i := n; i < len(ok); i++ {
		ok[i] = tb.ff
	}
	ok[n] = tb.tt
	for i := n - 1; i >= 0; i-- {
		r := tb.and(rg(b[i], 0, 0x7f), ok[i+1])
		if i+1 < n {
			c1 := rg(b[i+1], 0x80, 0xbf)
			r = tb.or(r, tb.and(tb.and(rg(b[i], 0xc2, 0xdf), c1), ok[i+2]))
			if i+2 < n {
				c2 := rg(b[i+2], 0x80, 0xbf)
				e0 := tb.and(tb.eq(b[i], tb.byteT(0xe0)), rg(b[i+1], 0xa0, 0xbf))
				ed := tb.and(tb.eq(b[i], tb.byteT(0xed)), rg(b[i+1], 0x80, 0x9f))
				ex := tb.and(tb.or(rg(b[i], 0xe1, 0xec), rg(b[i], 0xee, 0xef)), c1)
				r = tb.or(r, tb.and(tb.and(tb.or(e0, tb.or(ed, ex)), c2), ok[i+3]))
				if i+3 < n {
					c3 := rg(b[i+3], 0x80, 0xbf)
					f0 := tb.and(tb.eq(b[i], tb.byteT(0xf0)), rg(b[i+1], 0x90, 0xbf))
					f4 := tb.and(tb.eq(b[i], tb.byteT(0xf4)), rg(b[i+1], 0x80, 0x8f))
					fx := tb.and(rg(b[i], 0xf1, 0xf3), c1)
					r = tb.or(r, tb.and(tb.and(tb.or(f0, tb.or(f4, fx)), tb.and(c2, c3)), ok[i+4]))
				}
			}
		}
		ok[i] = r
	}
	return ok[0]
}

// inTable: rune membership in a Unicode table, exact over all of Unicode.
func (w *W) inTable(r *Term, tab *unicode.RangeTable) *Term {
	tb := w.tb
	r = tb.resize(r, 32, true)
	c := tb.ff
	k := func(v uint64) *Term { return tb.bvT(32, v) }
	add := func(lo, hi, stride uint32) {
		if stride == 1 || lo == hi {
			c = tb.or(c, tb.and(tb.bin(opULe, k(uint64(lo)), r), tb.bin(opULe, r, k(uint64(hi)))))
			return
		}
		for x := lo; x <= hi; x += stride {
			c = tb.or(c, tb.eq(r, k(uint64(x))))
		}
	}
	max := uint32(0x10FFFF)
	if r.ranged && r.hi >= 0 && r.lo >= 0 {
		max = uint32(r.hi)
	}
	for _, x := range tab.R16 {
		if uint32(x.Lo) <= max {
			add(uint32(x.Lo), uint32(x.Hi), uint32(x.Stride))
		}
	}
	for _, x := range tab.R32 {
		if x.Lo <= max {
			add(x.Lo, x.Hi, x.Stride)
		}
	}
	return c
}

func runePred(nat func(rune) bool, tab *unicode.RangeTable) intrinsic {
	return func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return w.boolV(nat(rune(int32(t.val)))), true
		}
		return w.inTable(t, tab), true
	}
}

func (w *W) asciiCase(s *Str, lo, hi byte, delta int) (Value, bool) {
	tb := w.tb
	if s.conc() {
		return nil, false
	}
	b := w.sbytes(s)
	asc := tb.tt
	for _, c := range b {
		asc = tb.and(asc, tb.bin(opULt, c, tb.byteT(0x80)))
	}
	if w.spec > 0 && asc != tb.tt {
		panic(specAbort{})
	}
	if !w.branch(asc) {
		return nil, false
	}
	out := make([]*Term, len(b))
	for i, c := range b {
		in := tb.and(tb.bin(opULe, tb.byteT(lo), c), tb.bin(opULe, c, tb.byteT(hi)))
		out[i] = tb.ite(in, tb.bin(opAdd, c, tb.byteT(byte(delta))), c)
	}
	return w.mkStr(out), true
}

// callMethod invokes an exported method by name on an interface value.
func (w *W) callMethod(i Iface, name string, args ...Value) (Value, bool) {
	if i.t == nil {
		return nil, false
	}
	if bn, ok := i.v.(*nativeObj); ok {
		return bn.call(w, name, args), true
	}
	fn := w.sh.methodByName(i.t, name)
	if fn == nil {
		return nil, false
	}
	return w.call(fn, append([]Value{copyVal(i.v)}, args...)), true
}

func (w *W) isError(i Iface) bool {
	return i.t != nil && w.implements(i.t, w.sh.errorType)
}

func (w *W) newError(msg *Str) Value {
	p := new(Value)
	*p = StructV{msg}
	return Iface{w.sh.ptrTo("errors", "errorString"), p}
}

func (w *W) errStr(i Iface) *Str {
	r, ok := w.callMethod(i, "Error")
	if !ok {
		return cstr("?")
	}
	return r.(*Str)
}

func (w *W) unwrapAll(i Iface) []Iface {
	if i.t == nil {
		return nil
	}
	fn := w.sh.methodByName(i.t, "Unwrap")
	if fn == nil {
		return nil
	}
	r := w.call(fn, []Value{copyVal(i.v)})
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case []Value:
		var out []Iface
		for _, e := range x {
			if f := e.(Iface); f.t != nil {
				out = append(out, f)
			}
		}
		return out
	}
	return nil
}

func (w *W) errorsIs(err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(err.t, target.t) && w.branch(w.equal(err.v, target.v)) {
		return true
	}
	if fn := w.sh.methodByName(err.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		if w.branch(w.call(fn, []Value{copyVal(err.v), target}).(*Term)) {
			return true
		}
	}
	for _, u := range w.unwrapAll(err) {
		if w.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (w *W) errorsAs(err, target Iface) bool {
	if err.t == nil {
		return false
	}
	pt := target.t.Underlying().(*types.Pointer).Elem()
	p := target.v.(*Value)
	if types.IsInterface(pt) {
		if w.implements(err.t, pt) {
			w.storeVal(p, err)
			return true
		}
	} else if types.Identical(err.t, pt) {
		w.storeVal(p, err.v)
		return true
	}
	for _, u := range w.unwrapAll(err) {
		if w.errorsAs(u, target) {
			return true
		}
	}
	return false
}

func (w *W) rxOf(v Value) *rxObj {
	p := w.ptr(v)
	x, ok := (*p).(*rxObj)
	if !ok {
		w.unsupported("uninitialised regexp")
	}
	return x
}

func (w *W) rxVal(x *rxObj) Value {
	p := new(Value)
	*p = x
	return p
}

func (w *W) ints(m []int) Value {
	if m == nil {
		return []Value(nil)
	}
	out := make([]Value, len(m))
	for i, x := range m {
		out[i] = w.intV(x)
	}
	return out
}

func (w *W) rxCompile(expr string) (Value, Value) {
	x, err := compileRx(expr)
	if err != nil {
		return (*Value)(nil), w.newError(cstr(err.Error()))
	}
	return w.rxVal(x), Iface{}
}

func declinePkgInit(*W, *ssa.Function, []Value) (Value, bool) { return nil, true }

func (w *W) floatRound(v Value, op Op, f func(float64) float64) Value {
	t := v.(*Term)
	if t.isConst() {
		return w.tb.floatT(f(math.Float64frombits(t.val)))
	}
	return w.tb.un(op, t)
}

func (w *W) isNaN(t *Term) *Term { return w.tb.not(w.tb.bin(opFEq, t, t)) }

// less/sort helper: stable insertion sort using a comparison closure.
func (w *W) sortVals(v []Value, less func(a, b Value) bool) {
	for i := 1; i < len(v); i++ {
		for j := i; j > 0 && less(v[j], v[j-1]); j-- {
			a, b := copyVal(v[j]), copyVal(v[j-1])
			w.storeVal(&v[j], b)
			w.storeVal(&v[j-1], a)
		}
	}
}

func init() {
	T := map[string]intrinsic{}
	intrinsics = T
	T["internal/reflectlite.TypeOf"] = always(func(w *W, a []Value) Value {
		var o *nativeObj
		o = &nativeObj{call: func(w *W, m string, a []Value) Value {
			if m == "Elem" {
				return Iface{w.sh.errorType, o}
			}
			w.unsupported("reflectlite.Type." + m)
			return nil
		}}
		return Iface{w.sh.errorType, o}
	})

	// ---- strings
	str2 := func(f func(a, b string) Value) intrinsic {
		return fast(func(w *W, a []Value) Value { return f(ss(a[0]), ss(a[1])) })
	}
	_ = str2
	T["strings.Index"] = always(func(w *W, a []Value) Value { return w.indexTerm(a[0].(*Str), a[1].(*Str)) })
	T["strings.LastIndex"] = always(func(w *W, a []Value) Value { return w.lastIndexTerm(a[0].(*Str), a[1].(*Str)) })
	T["strings.Contains"] = always(func(w *W, a []Value) Value {
		return w.tb.not(w.tb.eq(w.indexTerm(a[0].(*Str), a[1].(*Str)), w.tb.int64T(-1)))
	})
	T["strings.IndexByte"] = always(func(w *W, a []Value) Value { return w.indexByteTerm(w.sbytes(a[0].(*Str)), a[1].(*Term)) })
	T["strings.LastIndexByte"] = always(func(w *W, a []Value) Value {
		b := w.sbytes(a[0].(*Str))
		r := w.tb.int64T(-1)
		for i := range b {
			r = w.tb.ite(w.tb.eq(b[i], a[1].(*Term)), w.tb.int64T(int64(i)), r)
		}
		return r
	})
	T["strings.HasPrefix"] = always(func(w *W, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if w.slen(p) > w.slen(s) {
			return w.tb.ff
		}
		return w.matchAt(s, p, 0)
	})
	T["strings.HasSuffix"] = always(func(w *W, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if w.slen(p) > w.slen(s) {
			return w.tb.ff
		}
		return w.matchAt(s, p, w.slen(s)-w.slen(p))
	})
	T["strings.Count"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		s, p := a[0].(*Str), a[1].(*Str)
		if s.conc() && p.conc() {
			return w.intV(strings.Count(s.s, p.s)), true
		}
		if w.slen(p) == 1 {
			return w.countByteTerm(w.sbytes(s), w.sat(p, 0)), true
		}
		return nil, false
	}
	T["strings.ToUpper"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if s := a[0].(*Str); s.conc() {
			return cstr(strings.ToUpper(s.s)), true
		}
		return w.asciiCase(a[0].(*Str), 'a', 'z', -32)
	}
	T["strings.ToLower"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if s := a[0].(*Str); s.conc() {
			return cstr(strings.ToLower(s.s)), true
		}
		return w.asciiCase(a[0].(*Str), 'A', 'Z', 32)
	}
	T["strings.TrimSpace"] = fast(func(w *W, a []Value) Value { return cstr(strings.TrimSpace(ss(a[0]))) })
	T["strings.Title"] = fast(func(w *W, a []Value) Value { return cstr(strings.Title(ss(a[0]))) })
	T["strings.Trim"] = fast(func(w *W, a []Value) Value { return cstr(strings.Trim(ss(a[0]), ss(a[1]))) })
	T["strings.TrimLeft"] = fast(func(w *W, a []Value) Value { return cstr(strings.TrimLeft(ss(a[0]), ss(a[1]))) })
	T["strings.TrimRight"] = fast(func(w *W, a []Value) Value { return cstr(strings.TrimRight(ss(a[0]), ss(a[1]))) })
	T["strings.TrimPrefix"] = fast(func(w *W, a []Value) Value { return cstr(strings.TrimPrefix(ss(a[0]), ss(a[1]))) })
	T["strings.TrimSuffix"] = fast(func(w *W, a []Value) Value { return cstr(strings.TrimSuffix(ss(a[0]), ss(a[1]))) })
	T["strings.Split"] = fast(func(w *W, a []Value) Value { return w.strsV(strings.Split(ss(a[0]), ss(a[1]))) })
	T["strings.SplitN"] = fast(func(w *W, a []Value) Value { return w.strsV(strings.SplitN(ss(a[0]), ss(a[1]), int(ti(a[2])))) })
	T["strings.Fields"] = fast(func(w *W, a []Value) Value { return w.strsV(strings.Fields(ss(a[0]))) })
	T["strings.Repeat"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if !concStrs(a) || ti(a[1]) < 0 || ti(a[1]) > 1<<16 {
			return nil, false
		}
		return cstr(strings.Repeat(ss(a[0]), int(ti(a[1])))), true
	}
	T["strings.Replace"] = fast(func(w *W, a []Value) Value { return cstr(strings.Replace(ss(a[0]), ss(a[1]), ss(a[2]), int(ti(a[3])))) })
	T["strings.ReplaceAll"] = fast(func(w *W, a []Value) Value { return cstr(strings.ReplaceAll(ss(a[0]), ss(a[1]), ss(a[2]))) })
	T["strings.EqualFold"] = fast(func(w *W, a []Value) Value { return w.boolV(strings.EqualFold(ss(a[0]), ss(a[1]))) })
	T["strings.Compare"] = fast(func(w *W, a []Value) Value { return w.intV(strings.Compare(ss(a[0]), ss(a[1]))) })
	T["strings.IndexRune"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		r := a[1].(*Term)
		if r.isConst() && r.val < 0x80 {
			return w.indexByteTerm(w.sbytes(a[0].(*Str)), w.tb.byteT(byte(r.val))), true
		}
		return nil, false
	}
	T["strings.ContainsRune"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		r := a[1].(*Term)
		if r.isConst() && r.val < 0x80 {
			return w.tb.not(w.tb.eq(w.indexByteTerm(w.sbytes(a[0].(*Str)), w.tb.byteT(byte(r.val))), w.tb.int64T(-1))), true
		}
		return nil, false
	}
	T["strings.Join"] = always(func(w *W, a []Value) Value {
		out := emptyStr
		for i, x := range a[0].([]Value) {
			if i > 0 {
				out = w.sconcat(out, a[1].(*Str))
			}
			out = w.sconcat(out, x.(*Str))
		}
		return out
	})
	T["strings.Clone"] = always(func(w *W, a []Value) Value { return a[0] })
	T["(*strings.Builder).copyCheck"] = always(func(w *W, a []Value) Value { return nil })
	T["(*strings.Builder).grow"] = always(func(w *W, a []Value) Value { return nil })
	bbuf := func(w *W, v Value) *Value {
		s := (*w.ptr(v)).(StructV)
		return &s[len(s)-1]
	}
	// The builder's content is kept as a string value in its buf field.
	bget := func(w *W, v Value) *Str {
		switch x := (*bbuf(w, v)).(type) {
		case *Str:
			return x
		case []Value:
			return w.bytesToStr(x)
		}
		return emptyStr
	}
	bapp := func(w *W, v Value, s *Str) {
		p := bbuf(w, v)
		w.store1(p, w.sconcat(bget(w, v), s))
	}
	T["(*strings.Builder).String"] = always(func(w *W, a []Value) Value { return bget(w, a[0]) })
	T["(*strings.Builder).Len"] = always(func(w *W, a []Value) Value { return w.intV(w.slen(bget(w, a[0]))) })
	// The capacity asked for is kept in its addr field.
	bcap := func(w *W, v Value) *Value { return &(*w.ptr(v)).(StructV)[0] }
	T["(*strings.Builder).Grow"] = always(func(w *W, a []Value) Value {
		n := 1
		if t := a[1].(*Term); t.isConst() {
			n = int(int64(t.val))
		}
		w.store1(bcap(w, a[0]), w.intV(w.slen(bget(w, a[0]))+n))
		return nil
	})
	T["(*strings.Builder).Cap"] = always(func(w *W, a []Value) Value {
		n := w.slen(bget(w, a[0]))
		if t, ok := (*bcap(w, a[0])).(*Term); ok && int(t.val) > n {
			n = int(t.val)
		}
		return w.intV(n)
	})
	T["(*strings.Builder).Reset"] = always(func(w *W, a []Value) Value {
		w.store1(bbuf(w, a[0]), emptyStr)
		w.store1(bcap(w, a[0]), w.intV(0))
		return nil
	})
	T["(*strings.Builder).WriteString"] = always(func(w *W, a []Value) Value {
		bapp(w, a[0], a[1].(*Str))
		return Tuple{w.intV(w.slen(a[1].(*Str))), Iface{}}
	})
	T["(*strings.Builder).Write"] = always(func(w *W, a []Value) Value {
		b, _ := a[1].([]Value)
		bapp(w, a[0], w.bytesToStr(b))
		return Tuple{w.intV(len(b)), Iface{}}
	})
	T["(*strings.Builder).WriteByte"] = always(func(w *W, a []Value) Value {
		bapp(w, a[0], w.mkStr([]*Term{a[1].(*Term)}))
		return Iface{}
	})
	T["(*strings.Builder).WriteRune"] = always(func(w *W, a []Value) Value {
		b := w.encodeRune(a[1].(*Term))
		bapp(w, a[0], w.mkStr(b))
		return Tuple{w.intV(len(b)), Iface{}}
	})

	// ---- bytes / bytealg
	T["internal/bytealg.IndexByteString"] = T["strings.IndexByte"]
	T["internal/bytealg.IndexByte"] = always(func(w *W, a []Value) Value { return w.indexByteTerm(w.valBytes(a[0]), a[1].(*Term)) })
	T["bytes.IndexByte"] = T["internal/bytealg.IndexByte"]
	T["internal/bytealg.CountString"] = always(func(w *W, a []Value) Value { return w.countByteTerm(w.sbytes(a[0].(*Str)), a[1].(*Term)) })
	T["internal/bytealg.Count"] = always(func(w *W, a []Value) Value { return w.countByteTerm(w.valBytes(a[0]), a[1].(*Term)) })
	T["internal/bytealg.Equal"] = always(func(w *W, a []Value) Value {
		x, _ := a[0].([]Value)
		y, _ := a[1].([]Value)
		return w.seq(w.bytesToStr(x), w.bytesToStr(y))
	})
	T["bytes.Equal"] = T["internal/bytealg.Equal"]
	T["internal/bytealg.MakeNoZero"] = always(func(w *W, a []Value) Value {
		n := int(w.concretize(a[0].(*Term)))
		return w.makeSlice(types.Typ[types.Uint8], n, n)
	})
	T["internal/bytealg.IndexString"] = T["strings.Index"]
	T["internal/bytealg.Compare"] = always(func(w *W, a []Value) Value {
		x, _ := a[0].([]Value)
		y, _ := a[1].([]Value)
		s, t := w.bytesToStr(x), w.bytesToStr(y)
		return w.tb.ite(w.seq(s, t), w.tb.int64T(0), w.tb.ite(w.slt(s, t), w.tb.int64T(-1), w.tb.int64T(1)))
	})
	T["internal/bytealg.CompareString"] = always(func(w *W, a []Value) Value {
		s, t := a[0].(*Str), a[1].(*Str)
		return w.tb.ite(w.seq(s, t), w.tb.int64T(0), w.tb.ite(w.slt(s, t), w.tb.int64T(-1), w.tb.int64T(1)))
	})
	T["internal/stringslite.Index"] = T["strings.Index"]
	T["internal/stringslite.IndexByte"] = T["strings.IndexByte"]
	T["internal/stringslite.HasPrefix"] = T["strings.HasPrefix"]
	T["internal/stringslite.HasSuffix"] = T["strings.HasSuffix"]
	T["internal/stringslite.Clone"] = T["strings.Clone"]
	T["internal/stringslite.CutPrefix"] = always(func(w *W, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if w.slen(p) <= w.slen(s) && w.branch(w.matchAt(s, p, 0)) {
			return Tuple{w.ssub(s, w.slen(p), w.slen(s)), w.tb.tt}
		}
		return Tuple{s, w.tb.ff}
	})

	// ---- unicode
	T["unicode.IsLetter"] = runePred(unicode.IsLetter, unicode.Letter)
	T["unicode.IsDigit"] = runePred(unicode.IsDigit, unicode.Digit)
	T["unicode.IsNumber"] = runePred(unicode.IsNumber, unicode.Number)
	T["unicode.IsUpper"] = runePred(unicode.IsUpper, unicode.Upper)
	T["unicode.IsLower"] = runePred(unicode.IsLower, unicode.Lower)
	T["unicode.IsSpace"] = runePred(unicode.IsSpace, unicode.White_Space)
	T["unicode.IsPunct"] = runePred(unicode.IsPunct, unicode.Punct)
	T["unicode.IsControl"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return w.boolV(unicode.IsControl(rune(int32(t.val)))), true
		}
		return nil, false
	}
	T["unicode.ToUpper"] = fast(func(w *W, a []Value) Value { return w.tb.bvT(32, uint64(uint32(unicode.ToUpper(rune(ti(a[0])))))) })
	T["unicode.ToLower"] = fast(func(w *W, a []Value) Value { return w.tb.bvT(32, uint64(uint32(unicode.ToLower(rune(ti(a[0])))))) })
	T["unicode.ToTitle"] = fast(func(w *W, a []Value) Value { return w.tb.bvT(32, uint64(uint32(unicode.ToTitle(rune(ti(a[0])))))) })
	T["unicode.IsPrint"] = fast(func(w *W, a []Value) Value { return w.boolV(unicode.IsPrint(rune(ti(a[0])))) })
	T["strconv.IsPrint"] = fast(func(w *W, a []Value) Value { return w.boolV(strconv.IsPrint(rune(ti(a[0])))) })

	// ---- utf8
	T["unicode/utf8.ValidString"] = always(func(w *W, a []Value) Value {
		if s := a[0].(*Str); s.conc() {
			return w.boolV(utf8.ValidString(s.s))
		}
		return w.validTerm(w.sbytes(a[0].(*Str)))
	})
	T["unicode/utf8.Valid"] = always(func(w *W, a []Value) Value {
		x, _ := a[0].([]Value)
		return w.validTerm(w.valBytes(x))
	})
	T["unicode/utf8.DecodeRuneInString"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(*Str)
		if w.slen(s) == 0 {
			return Tuple{w.tb.bvT(32, utf8.RuneError), w.intV(0)}, true
		}
		r, n := w.decodeRune(s, 0)
		return Tuple{r, w.intV(n)}, true
	}
	T["unicode/utf8.DecodeRune"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		x, _ := a[0].([]Value)
		s := w.bytesToStr(x)
		if w.slen(s) == 0 {
			return Tuple{w.tb.bvT(32, utf8.RuneError), w.intV(0)}, true
		}
		r, n := w.decodeRune(s, 0)
		return Tuple{r, w.intV(n)}, true
	}

	// ---- strconv
	T["strconv.Quote"] = fast(func(w *W, a []Value) Value { return cstr(strconv.Quote(ss(a[0]))) })
	T["strconv.Itoa"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return cstr(strconv.FormatInt(int64(t.val), 10)), true
		}
		if t.ranged && t.hi-t.lo <= 300 {
			return cstr(strconv.FormatInt(int64(w.concretize(t)), 10)), true
		}
		return cstr(strconv.FormatInt(int64(w.renderVal(t)), 10)), true
	}
	T["strconv.FormatInt"] = fast(func(w *W, a []Value) Value { return cstr(strconv.FormatInt(ti(a[0]), int(ti(a[1])))) })
	T["strconv.ParseFloat"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if !concStrs(a) {
			return nil, false
		}
		f, err := strconv.ParseFloat(ss(a[0]), int(ti(a[1])))
		var e Value = Iface{}
		if err != nil {
			e = w.newError(cstr(err.Error()))
		}
		return Tuple{w.tb.floatT(f), e}, true
	}
	T["strconv.FormatFloat"] = always(func(w *W, a []Value) Value {
		f := math.Float64frombits(w.renderVal(a[0].(*Term)))
		return cstr(strconv.FormatFloat(f, byte(w.concretize(a[1].(*Term))), int(int64(w.concretize(a[2].(*Term)))), int(w.concretize(a[3].(*Term)))))
	})
	T["strconv.Unquote"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if !concStrs(a) {
			return nil, false
		}
		s, err := strconv.Unquote(ss(a[0]))
		var e Value = Iface{}
		if err != nil {
			e = Iface{w.sh.ptrTo("errors", "errorString"), func() Value { p := new(Value); *p = StructV{cstr(err.Error())}; return p }()}
		}
		return Tuple{cstr(s), e}, true
	}

	// ---- math
	T["math.Float64bits"] = func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return w.tb.konst(sBV64, t.val), true
		}
		if t.op == opFFromBits {
			return t.a, true
		}
		w.unsupported("Float64bits of symbolic float")
		return nil, true
	}
	T["math.Float64frombits"] = always(func(w *W, a []Value) Value { return w.fromBits(a[0].(*Term)) })
	T["math.Trunc"] = always(func(w *W, a []Value) Value { return w.floatRound(a[0], opFTrunc, math.Trunc) })
	T["math.Floor"] = always(func(w *W, a []Value) Value { return w.floatRound(a[0], opFFloor, math.Floor) })
	T["math.Ceil"] = always(func(w *W, a []Value) Value { return w.floatRound(a[0], opFCeil, math.Ceil) })
	T["math.Abs"] = always(func(w *W, a []Value) Value { return w.floatRound(a[0], opFAbs, math.Abs) })
	T["math.IsNaN"] = always(func(w *W, a []Value) Value { return w.isNaN(a[0].(*Term)) })
	T["math.IsInf"] = always(func(w *W, a []Value) Value {
		t := a[0].(*Term)
		sg := int64(w.concretize(a[1].(*Term)))
		p := w.tb.bin(opFEq, t, w.tb.floatT(math.Inf(1)))
		n := w.tb.bin(opFEq, t, w.tb.floatT(math.Inf(-1)))
		switch {
		case sg > 0:
			return p
		case sg < 0:
			return n
		}
		return w.tb.or(p, n)
	})
	T["math.archFloor"] = T["math.Floor"]
	T["math.archTrunc"] = T["math.Trunc"]
	T["math.archCeil"] = T["math.Ceil"]

	// ---- errors
	T["errors.New"] = always(func(w *W, a []Value) Value { return w.newError(a[0].(*Str)) })
	T["errors.Is"] = always(func(w *W, a []Value) Value { return w.boolV(w.errorsIs(a[0].(Iface), a[1].(Iface))) })
	T["errors.As"] = always(func(w *W, a []Value) Value { return w.boolV(w.errorsAs(a[0].(Iface), a[1].(Iface))) })

	// ---- regexp
	T["regexp.Compile"] = always(func(w *W, a []Value) Value { r, e := w.rxCompile(w.goStr(a[0])); return Tuple{r, e} })
	T["regexp.MustCompile"] = always(func(w *W, a []Value) Value {
		s := w.goStr(a[0])
		r, e := w.rxCompile(s)
		if e.(Iface).t != nil {
			panic(targetPanic{Iface{types.Typ[types.String], cstr("regexp: Compile(" + strconv.Quote(s) + ")")}, w.where()})
		}
		return r
	})
	T["regexp.MatchString"] = always(func(w *W, a []Value) Value {
		r, e := w.rxCompile(w.goStr(a[0]))
		if e.(Iface).t != nil {
			return Tuple{w.tb.ff, e}
		}
		return Tuple{w.rxMatchTerm(w.rxOf(r), a[1].(*Str)), e}
	})
	T["regexp.QuoteMeta"] = always(func(w *W, a []Value) Value { return cstr(quoteMeta(w.goStr(a[0]))) })
	rx := func(name string, f func(w *W, x *rxObj, a []Value) Value) {
		T["(*regexp.Regexp)."+name] = always(func(w *W, a []Value) Value { return f(w, w.rxOf(a[0]), a[1:]) })
	}
	rx("String", func(w *W, x *rxObj, a []Value) Value { return cstr(x.expr) })
	rx("NumSubexp", func(w *W, x *rxObj, a []Value) Value { return w.intV(x.re.NumSubexp()) })
	rx("Longest", func(w *W, x *rxObj, a []Value) Value { x.longest = true; x.re.Longest(); return nil })
	rx("MatchString", func(w *W, x *rxObj, a []Value) Value { return w.rxMatchTerm(x, a[0].(*Str)) })
	rx("Match", func(w *W, x *rxObj, a []Value) Value {
		b, _ := a[0].([]Value)
		return w.rxMatchTerm(x, w.bytesToStr(b))
	})
	cut := func(m []int, n int) []int {
		if m == nil {
			return nil
		}
		return m[:n]
	}
	rx("FindStringIndex", func(w *W, x *rxObj, a []Value) Value { return w.ints(cut(w.rxExec(x, a[0].(*Str), 0), 2)) })
	rx("FindStringSubmatchIndex", func(w *W, x *rxObj, a []Value) Value { return w.ints(w.rxExec(x, a[0].(*Str), 0)) })
	rx("FindString", func(w *W, x *rxObj, a []Value) Value {
		m := w.rxExec(x, a[0].(*Str), 0)
		if m == nil {
			return emptyStr
		}
		return w.ssub(a[0].(*Str), m[0], m[1])
	})
	rx("FindStringSubmatch", func(w *W, x *rxObj, a []Value) Value {
		m := w.rxExec(x, a[0].(*Str), 0)
		if m == nil {
			return []Value(nil)
		}
		var out []Value
		for i := 0; i+1 < len(m); i += 2 {
			if m[i] < 0 {
				out = append(out, emptyStr)
			} else {
				out = append(out, w.ssub(a[0].(*Str), m[i], m[i+1]))
			}
		}
		return out
	})
	all := func(w *W, x *rxObj, a []Value, f func(m []int) Value) Value {
		var out []Value
		w.rxAll(x, a[0].(*Str), int(int64(w.concretize(a[1].(*Term)))), func(m []int) { out = append(out, f(m)) })
		return out
	}
	rx("FindAllStringIndex", func(w *W, x *rxObj, a []Value) Value {
		return all(w, x, a, func(m []int) Value { return w.ints(m[:2]) })
	})
	rx("FindAllStringSubmatchIndex", func(w *W, x *rxObj, a []Value) Value { return all(w, x, a, func(m []int) Value { return w.ints(m) }) })
	rx("FindAllString", func(w *W, x *rxObj, a []Value) Value {
		return all(w, x, a, func(m []int) Value { return w.ssub(a[0].(*Str), m[0], m[1]) })
	})
	rx("ReplaceAllString", func(w *W, x *rxObj, a []Value) Value {
		return w.rxReplace(x, a[0].(*Str), func(m []int) *Str { return w.rxExpand(x, a[1].(*Str), a[0].(*Str), m) })
	})
	rx("ReplaceAllLiteralString", func(w *W, x *rxObj, a []Value) Value {
		return w.rxReplace(x, a[0].(*Str), func(m []int) *Str { return a[1].(*Str) })
	})
	rx("ReplaceAllStringFunc", func(w *W, x *rxObj, a []Value) Value {
		return w.rxReplace(x, a[0].(*Str), func(m []int) *Str {
			return w.call(a[1], []Value{w.ssub(a[0].(*Str), m[0], m[1])}).(*Str)
		})
	})
	rx("ExpandString", func(w *W, x *rxObj, a []Value) Value {
		var m []int
		for _, v := range a[3].([]Value) {
			m = append(m, int(int64(w.concretize(v.(*Term)))))
		}
		d, _ := a[0].([]Value)
		return w.appendVals(d, w.strToBytes(w.rxExpand(x, a[1].(*Str), a[2].(*Str), m)))
	})
	rx("LiteralPrefix", func(w *W, x *rxObj, a []Value) Value { p, c := x.re.LiteralPrefix(); return Tuple{cstr(p), w.boolV(c)} })
	rx("SubexpNames", func(w *W, x *rxObj, a []Value) Value { return w.strsV(x.re.SubexpNames()) })
	rx("SubexpIndex", func(w *W, x *rxObj, a []Value) Value { return w.intV(x.re.SubexpIndex(w.goStr(a[0]))) })
	rx("Split", func(w *W, x *rxObj, a []Value) Value {
		// as regexp.Split does it
		s := a[0].(*Str)
		n := int(int64(w.concretize(a[1].(*Term))))
		if n == 0 {
			return []Value(nil)
		}
		ln := w.slen(s)
		if len(x.expr) > 0 && ln == 0 {
			return []Value{emptyStr}
		}
		out := []Value{}
		beg, end := 0, 0
		var ms [][]int
		w.rxAll(x, s, n, func(m []int) { ms = append(ms, []int{m[0], m[1]}) })
		for _, m := range ms {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, w.ssub(s, beg, end))
			}
			beg = m[1]
		}
		if end != ln {
			out = append(out, w.ssub(s, beg, ln))
		}
		return out
	})
	// the variants on byte slices
	bytesOf := func(v Value) []Value { b, _ := v.([]Value); return b }
	cutB := func(b []Value, m []int, i int) Value {
		if m[i] < 0 {
			return []Value(nil)
		}
		return b[m[i]:m[i+1]:m[i+1]]
	}
	subB := func(b []Value, m []int) Value {
		var out []Value
		for i := 0; i+1 < len(m); i += 2 {
			out = append(out, cutB(b, m, i))
		}
		return out
	}
	subS := func(w *W, s *Str, m []int) Value {
		var out []Value
		for i := 0; i+1 < len(m); i += 2 {
			if m[i] < 0 {
				out = append(out, emptyStr)
			} else {
				out = append(out, w.ssub(s, m[i], m[i+1]))
			}
		}
		return out
	}
	allB := func(w *W, x *rxObj, a []Value, f func(b []Value, m []int) Value) Value {
		b := bytesOf(a[0])
		var out []Value
		w.rxAll(x, w.bytesToStr(b), int(int64(w.concretize(a[1].(*Term)))), func(m []int) { out = append(out, f(b, m)) })
		return out
	}
	rx("FindAllStringSubmatch", func(w *W, x *rxObj, a []Value) Value {
		return all(w, x, a, func(m []int) Value { return subS(w, a[0].(*Str), m) })
	})
	rx("Find", func(w *W, x *rxObj, a []Value) Value {
		b := bytesOf(a[0])
		m := w.rxExec(x, w.bytesToStr(b), 0)
		if m == nil {
			return []Value(nil)
		}
		return cutB(b, m, 0)
	})
	rx("FindIndex", func(w *W, x *rxObj, a []Value) Value {
		return w.ints(cut(w.rxExec(x, w.bytesToStr(bytesOf(a[0])), 0), 2))
	})
	rx("FindSubmatchIndex", func(w *W, x *rxObj, a []Value) Value {
		return w.ints(w.rxExec(x, w.bytesToStr(bytesOf(a[0])), 0))
	})
	rx("FindSubmatch", func(w *W, x *rxObj, a []Value) Value {
		b := bytesOf(a[0])
		m := w.rxExec(x, w.bytesToStr(b), 0)
		if m == nil {
			return []Value(nil)
		}
		return subB(b, m)
	})
	rx("FindAll", func(w *W, x *rxObj, a []Value) Value {
		return allB(w, x, a, func(b []Value, m []int) Value { return cutB(b, m, 0) })
	})
	rx("FindAllIndex", func(w *W, x *rxObj, a []Value) Value {
		return allB(w, x, a, func(b []Value, m []int) Value { return w.ints(m[:2]) })
	})
	rx("FindAllSubmatch", func(w *W, x *rxObj, a []Value) Value { return allB(w, x, a, subB) })
	rx("FindAllSubmatchIndex", func(w *W, x *rxObj, a []Value) Value {
		return allB(w, x, a, func(b []Value, m []int) Value { return w.ints(m) })
	})
	replB := func(w *W, x *rxObj, src []Value, f func(s *Str, m []int) *Str) Value {
		s := w.bytesToStr(src)
		out := w.rxReplace(x, s, func(m []int) *Str { return f(s, m) })
		r := w.strToBytes(out)
		if len(r) == 0 {
			return []Value(nil)
		}
		return r
	}
	rx("ReplaceAll", func(w *W, x *rxObj, a []Value) Value {
		repl := w.bytesToStr(bytesOf(a[1]))
		return replB(w, x, bytesOf(a[0]), func(s *Str, m []int) *Str { return w.rxExpand(x, repl, s, m) })
	})
	rx("ReplaceAllLiteral", func(w *W, x *rxObj, a []Value) Value {
		repl := w.bytesToStr(bytesOf(a[1]))
		return replB(w, x, bytesOf(a[0]), func(s *Str, m []int) *Str { return repl })
	})
	rx("ReplaceAllFunc", func(w *W, x *rxObj, a []Value) Value {
		return replB(w, x, bytesOf(a[0]), func(s *Str, m []int) *Str {
			return w.bytesToStr(bytesOf(w.call(a[1], []Value{w.strToBytes(w.ssub(s, m[0], m[1]))})))
		})
	})
	rx("Expand", func(w *W, x *rxObj, a []Value) Value {
		var m []int
		for _, v := range bytesOf(a[3]) {
			m = append(m, int(int64(w.concretize(v.(*Term)))))
		}
		return w.appendVals(bytesOf(a[0]), w.strToBytes(w.rxExpand(x, w.bytesToStr(bytesOf(a[1])), w.bytesToStr(bytesOf(a[2])), m)))
	})
	T["regexp.Match"] = always(func(w *W, a []Value) Value {
		r, e := w.rxCompile(w.goStr(a[0]))
		if e.(Iface).t != nil {
			return Tuple{w.tb.ff, e}
		}
		return Tuple{w.rxMatchTerm(w.rxOf(r), w.bytesToStr(bytesOf(a[1]))), e}
	})

	// ---- sort
	T["sort.Slice"] = always(func(w *W, a []Value) Value {
		// only (element i, element j) comparisons through the index closure are available,
		// so sort in place by index with an insertion sort
		v := a[0].(Iface).v.([]Value)
		for i := 1; i < len(v); i++ {
			for j := i; j > 0; j-- {
				r := w.call(a[1], []Value{w.intV(j), w.intV(j - 1)}).(*Term)
				if !w.branch(r) {
					break
				}
				x, y := copyVal(v[j]), copyVal(v[j-1])
				w.storeVal(&v[j], y)
				w.storeVal(&v[j-1], x)
			}
		}
		return nil
	})
	T["sort.SliceStable"] = T["sort.Slice"]
	T["sort.Strings"] = always(func(w *W, a []Value) Value {
		v, _ := a[0].([]Value)
		conc := concStrs(v)
		if conc {
			s := make([]string, len(v))
			for i := range v {
				s[i] = ss(v[i])
			}
			sort.Strings(s)
			for i := range v {
				w.store1(&v[i], cstr(s[i]))
			}
			return nil
		}
		w.sortVals(v, func(x, y Value) bool { return w.branch(w.slt(x.(*Str), y.(*Str))) })
		return nil
	})

	// ---- sync
	syncIntrinsics(T)
	T["(*sync.Once).Do"] = always(func(w *W, a []Value) Value {
		p := w.ptr(a[0])
		if w.onces[p] {
			return nil
		}
		w.onces[p] = true
		if w.logging {
			w.undo = append(w.undo, undoRec{f: func() { delete(w.onces, p) }})
		}
		w.call(a[1], nil)
		return nil
	})
	for _, sz := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		T["sync/atomic.Load"+sz] = always(func(w *W, a []Value) Value { return *w.ptr(a[0]) })
		T["sync/atomic.Store"+sz] = always(func(w *W, a []Value) Value { w.store1(w.ptr(a[0]), a[1]); return nil })
		T["sync/atomic.Swap"+sz] = always(func(w *W, a []Value) Value {
			p := w.ptr(a[0])
			o := *p
			w.store1(p, a[1])
			return o
		})
		T["sync/atomic.CompareAndSwap"+sz] = always(func(w *W, a []Value) Value {
			p := w.ptr(a[0])
			if w.branch(w.equal(*p, a[1])) {
				w.store1(p, a[2])
				return w.tb.tt
			}
			return w.tb.ff
		})
		if sz != "Pointer" {
			T["sync/atomic.Add"+sz] = always(func(w *W, a []Value) Value {
				p := w.ptr(a[0])
				n := w.tb.bin(opAdd, (*p).(*Term), a[1].(*Term))
				w.store1(p, n)
				return n
			})
		}
	}
	fmtIntrinsics(T)
	osIntrinsics(T)
	zvIntrinsics(T)
	jsonIntrinsics(T)
	xmlIntrinsics(T)
}

func (w *W) fromBits(t *Term) *Term {
	if t.isConst() {
		return w.tb.konst(sFP64, t.val)
	}
	return w.tb.mk(opFFromBits, sFP64, 0, t, nil, nil)
}

func quoteMeta(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		if strings.IndexByte(`\.+*?()|[]{}^$`, c) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(c)
	}
	return b.String()
}

var _ = fmt.Sprint
