package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync/atomic"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic-interpreter value:
//
//	*Term      scalars (bool, integers, floats)
//	*Str       strings (concrete length, possibly symbolic bytes)
//	[]Value    slices            Arr      arrays        StructV  structs
//	*Value     pointers          Iface    interfaces    *Map     maps
//	*Closure, *ssa.Function, *ssa.Builtin, NilFunc      functions
//	Tuple      multi-results
type Value any

type Arr []Value
type StructV []Value
type Tuple []Value
type NilFunc struct{}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// BoundNative is an engine-implemented function value.
type BoundNative struct {
	name string
	f    func(w *W, args []Value) Value
}

// Str is an immutable string. b != nil means (partly) symbolic bytes.
type Str struct {
	s    string
	b    []*Term
	opq  bool  // content unknown (formatting of a symbolic float)
	grow *grow // the storage it is a prefix of, which has room for more
}

// grow is storage shared by strings that were made by appending to each other. Bytes (or terms) below used are
// never written again, so the one string that ends at used may claim the room after it.
type grow struct {
	used atomic.Int64
	s    []byte
	b    []*Term
}

// claim takes the room for k more after the first n, if it is free.
func (g *grow) claim(n, k int) bool {
	return g != nil && n+k <= max(len(g.s), len(g.b)) && g.used.CompareAndSwap(int64(n), int64(n+k))
}

// growMin is the length from which on concatenations get room to grow.
const growMin = 128

func catBytes(a, b *Str) *Str {
	n, k := len(a.s), len(b.s)
	g := a.grow
	if g == nil || g.s == nil || !g.claim(n, k) {
		g = &grow{s: make([]byte, 2*(n+k))}
		copy(g.s, a.s)
		g.used.Store(int64(n + k))
	}
	copy(g.s[n:], b.s)
	return &Str{s: unsafe.String(&g.s[0], n+k), grow: g}
}

func catTerms(a *Str, x, y []*Term) *Str {
	n, k := len(x), len(y)
	g := a.grow
	if g == nil || g.b == nil || !g.claim(n, k) {
		g = &grow{b: make([]*Term, 2*(n+k))}
		copy(g.b, x)
		g.used.Store(int64(n + k))
	}
	copy(g.b[n:], y)
	return &Str{b: g.b[: n+k : n+k], grow: g}
}

var emptyStr = &Str{}

func cstr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func (s *Str) conc() bool { return s.b == nil && !s.opq }

func (w *W) slen(s *Str) int {
	if s.opq {
		w.unsupported("length of a formatted symbolic number")
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (w *W) sat(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.tb.byteT(s.s[i])
}

func (w *W) mkStr(b []*Term) *Str {
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return cstr(string(bs))
}

func (w *W) ssub(s *Str, lo, hi int) *Str {
	if s.b != nil {
		return w.mkStr(s.b[lo:hi])
	}
	return cstr(s.s[lo:hi])
}

func (w *W) sbytes(s *Str) []*Term {
	if s.opq {
		w.unsupported("bytes of a formatted symbolic number")
	}
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = w.tb.byteT(s.s[i])
	}
	return out
}

func (w *W) sconcat(a, b *Str) *Str {
	if a.opq || b.opq {
		return &Str{opq: true}
	}
	if a.b == nil && b.b == nil {
		if len(a.s) >= growMin && len(b.s) > 0 {
			return catBytes(a, b)
		}
		return cstr(a.s + b.s)
	}
	if w.slen(a) == 0 {
		return b
	}
	if w.slen(b) == 0 {
		return a
	}
	x, y := w.sbytes(a), w.sbytes(b)
	if len(x) >= growMin {
		return catTerms(a, x, y)
	}
	out := make([]*Term, 0, len(x)+len(y))
	out = append(out, x...)
	out = append(out, y...)
	return &Str{b: out}
}

// seq returns the term a == b.
func (w *W) seq(a, b *Str) *Term {
	if a.conc() && b.conc() {
		return w.tb.boolT(a.s == b.s)
	}
	if w.slen(a) != w.slen(b) {
		return w.tb.ff
	}
	n := w.slen(a)
	r := w.tb.tt
	for i := 0; i < n; i++ {
		r = w.tb.and(r, w.tb.eq(w.sat(a, i), w.sat(b, i)))
		if r == w.tb.ff {
			return r
		}
	}
	return r
}

// slt returns the term a < b (lexicographic).
func (w *W) slt(a, b *Str) *Term {
	if a.conc() && b.conc() {
		return w.tb.boolT(a.s < b.s)
	}
	na, nb := w.slen(a), w.slen(b)
	n := min(na, nb)
	r := w.tb.boolT(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := w.sat(a, i), w.sat(b, i)
		r = w.tb.ite(w.tb.eq(x, y), r, w.tb.bin(opULt, x, y))
	}
	return r
}

func (w *W) bytesToStr(v []Value) *Str {
	b := make([]*Term, len(v))
	for i, x := range v {
		b[i] = x.(*Term)
	}
	return w.mkStr(b)
}

func (w *W) strToBytes(s *Str) []Value {
	n := w.slen(s)
	out := make([]Value, n)
	for i := range out {
		out[i] = w.sat(s, i)
	}
	return out
}

// goStr returns the concrete string or stops the path.
func (w *W) goStr(v Value) string {
	s := v.(*Str)
	if s.opq {
		w.unsupported("content of a formatted symbolic number")
	}
	if s.b == nil {
		return s.s
	}
	bs := make([]byte, len(s.b))
	for i, t := range s.b {
		bs[i] = byte(w.concretize(t))
	}
	return string(bs)
}

// Map is a Go map with insertion-ordered entries.
type Map struct {
	kt, vt  types.Type
	idx     map[string]int
	entries []*mapEntry
	live    int
	symKeys bool
}

type mapEntry struct {
	k, v Value
	dead bool
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

func (w *W) store1(p *Value, v Value) {
	if w.logging {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (w *W) rollback() { w.rollbackTo(0) }

// rollbackTo takes back every write since the undo log had n entries.
func (w *W) rollbackTo(n int) {
	for i := len(w.undo) - 1; i >= n; i-- {
		u := w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		w.undo[i] = undoRec{}
	}
	w.undo = w.undo[:n]
}

// mkey encodes a key; ok=false if it has symbolic parts.
func (w *W) mkey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return "", false
		}
		return fmt.Sprintf("%d", v.val), true
	case *Str:
		if v.opq {
			w.unsupported("map key from formatted symbolic number")
		}
		if v.b != nil {
			return "", false
		}
		return v.s, true
	case *Value:
		return fmt.Sprintf("%p", v), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := w.mkey(v.v)
		return v.t.String() + "|" + k, ok
	case StructV:
		var b strings.Builder
		for _, x := range v {
			k, ok := w.mkey(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return b.String(), true
	case Arr:
		return w.mkey(StructV(v))
	case *Map:
		return fmt.Sprintf("%p", v), true
	}
	w.unsupported(fmt.Sprintf("map key %T", v))
	return "", false
}

func (w *W) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	key, ok := w.mkey(k)
	if ok && !m.symKeys {
		if i, ok := m.idx[key]; ok {
			return m.entries[i]
		}
		return nil
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if w.branch(w.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *Map, k, v Value) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	if e := w.mapFind(m, k); e != nil {
		w.store1(&e.v, v)
		return
	}
	key, ok := w.mkey(k)
	e := &mapEntry{k: k, v: v}
	oldSym := m.symKeys
	m.entries = append(m.entries, e)
	if ok {
		m.idx[key] = len(m.entries) - 1
	} else {
		m.symKeys = true
	}
	m.live++
	if w.logging {
		n := len(m.entries)
		w.undo = append(w.undo, undoRec{f: func() {
			m.entries = m.entries[:n-1]
			if ok {
				delete(m.idx, key)
			}
			m.symKeys = oldSym
			m.live--
		}})
	}
}

func (w *W) mapDelete(m *Map, k Value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	key, ok := w.mkey(e.k)
	i, had := -1, false
	if ok {
		i, had = m.idx[key]
		if had {
			delete(m.idx, key)
		}
	}
	e.dead = true
	m.live--
	if w.logging {
		w.undo = append(w.undo, undoRec{f: func() {
			e.dead = false
			m.live++
			if had {
				m.idx[key] = i
			}
		}})
	}
}

type mapIter struct {
	es []*mapEntry
	i  int
}

// iterate returns the live entries in the order chosen by the current map-order mode.
func (w *W) mapOrder(m *Map) []*mapEntry {
	if m == nil {
		return nil
	}
	var es []*mapEntry
	for _, e := range m.entries {
		if !e.dead {
			es = append(es, e)
		}
	}
	switch w.mapMode {
	case 1:
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	case 2:
		if len(es) > 1 {
			k := len(es) / 2
			es = append(append([]*mapEntry{}, es[k:]...), es[:k]...)
		}
	case 3:
		if len(es) > 1 {
			es = append(append([]*mapEntry{}, es[1:]...), es[0])
		}
	case 4: // hash-like shuffle
		sort.SliceStable(es, func(i, j int) bool {
			ki, _ := w.mkey(es[i].k)
			kj, _ := w.mkey(es[j].k)
			return fnv(ki) < fnv(kj)
		})
	}
	return es
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

type strIter struct {
	s *Str
	i int
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func basicSort(b *types.Basic) (Sort, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return sBool, false
	case types.Int, types.Int64, types.UntypedInt:
		return sBV64, true
	case types.Int8:
		return sBV8, true
	case types.Int16:
		return Sort{kBV, 16}, true
	case types.Int32, types.UntypedRune:
		return sBV32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return sBV64, false
	case types.Uint8:
		return sBV8, false
	case types.Uint16:
		return Sort{kBV, 16}, false
	case types.Uint32:
		return sBV32, false
	case types.Float64, types.UntypedFloat:
		return sFP64, true
	case types.Float32:
		return sFP32, true
	}
	return Sort{}, false
}

func (w *W) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return Iface{}
		case types.Complex64, types.Complex128:
			return complex(0, 0)
		case types.Invalid:
			return nil
		}
		s, _ := basicSort(u)
		if s.W == 0 {
			w.unsupported("zero of " + t.String())
		}
		return w.tb.konst(s, 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Array:
		a := make(Arr, u.Len())
		if u.Len() > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = w.zero(u.Elem())
				}
			default:
				z := w.zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return NilFunc{}
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = w.zero(u.At(i).Type())
		}
		return tu
	case *types.TypeParam:
		w.unsupported("zero of type parameter")
	}
	w.unsupported("zero of " + t.String())
	return nil
}

type Chan struct {
	buf            []Value
	cap            int
	closed         bool
	waiting        int // receivers
	sent, received int
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		o := make(StructV, len(v))
		for i, x := range v {
			o[i] = copyVal(x)
		}
		return o
	case Arr:
		o := make(Arr, len(v))
		for i, x := range v {
			o[i] = copyVal(x)
		}
		return o
	}
	return v
}

// storeVal stores v through p, keeping interior pointers valid.
func (w *W) storeVal(p *Value, v Value) {
	switch v := v.(type) {
	case StructV:
		if l, ok := (*p).(StructV); ok && len(l) == len(v) {
			for i := range l {
				w.storeVal(&l[i], v[i])
			}
			return
		}
		w.store1(p, copyVal(v))
		return
	case Arr:
		if l, ok := (*p).(Arr); ok && len(l) == len(v) {
			for i := range l {
				w.storeVal(&l[i], v[i])
			}
			return
		}
		w.store1(p, copyVal(v))
		return
	}
	w.store1(p, v)
}

func (w *W) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := c.Type().(*types.TypeParam); ok {
		_ = tp
		w.unsupported("const of type parameter")
	}
	b, ok := t.(*types.Basic)
	if !ok {
		w.unsupported("const of type " + c.Type().String())
	}
	switch {
	case b.Kind() == types.String || b.Kind() == types.UntypedString:
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		return cstr(string(rune(c.Int64())))
	case b.Info()&types.IsBoolean != 0:
		return w.tb.boolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		s, _ := basicSort(b)
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return w.tb.konst(s, u)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return w.tb.konst(s, uint64(i))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			return w.tb.konst(sFP32, uint64(math.Float32bits(float32(f))))
		}
		return w.tb.floatT(f)
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Kind() == types.UnsafePointer:
		return (*Value)(nil)
	}
	w.unsupported("const " + c.String())
	return nil
}

// equal returns the term x == y for comparable values.
func (w *W) equal(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.sort.K == kFP {
			return w.tb.bin(opFEq, a, b)
		}
		return w.tb.eq(a, b)
	case *Str:
		return w.seq(a, y.(*Str))
	case *Value:
		b, ok := y.(*Value)
		return w.tb.boolT(ok && a == b)
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return w.tb.boolT(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.tb.ff
		}
		if !types.Comparable(a.t) {
			w.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return w.equal(a.v, b.v)
	case StructV:
		b := y.(StructV)
		r := w.tb.tt
		for i := range a {
			r = w.tb.and(r, w.equal(a[i], b[i]))
		}
		return r
	case Arr:
		return w.equal(StructV(a), StructV(y.(Arr)))
	case []Value:
		b := y.([]Value)
		return w.tb.boolT(a == nil && b == nil)
	case *Map:
		return w.tb.boolT(a == y.(*Map))
	case *Chan:
		return w.tb.boolT(a == y.(*Chan))
	case NilFunc:
		_, ok := y.(NilFunc)
		return w.tb.boolT(ok)
	case *Closure, *ssa.Function, *ssa.Builtin, *BoundNative:
		return w.tb.ff
	case complex128:
		return w.tb.boolT(a == y.(complex128))
	}
	w.unsupported(fmt.Sprintf("comparison of %T", x))
	return nil
}
