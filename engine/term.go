package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Sort of a term.
type Sort struct {
	K uint8 // kBool, kBV, kFP
	W uint8 // width
}

const (
	kBool = iota
	kBV
	kFP
)

var (
	sBool = Sort{kBool, 1}
	sBV8  = Sort{kBV, 8}
	sBV32 = Sort{kBV, 32}
	sBV64 = Sort{kBV, 64}
	sFP64 = Sort{kFP, 64}
	sFP32 = Sort{kFP, 32}
)

func (s Sort) smt() string {
	switch s.K {
	case kBool:
		return "Bool"
	case kBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	opConst Op = iota
	opVar
	opNot
	opAnd
	opOr
	opIte
	opEq
	opAdd
	opSub
	opMul
	opUDiv
	opSDiv
	opURem
	opSRem
	opBAnd
	opBOr
	opBXor
	opBNot
	opNeg
	opShl
	opLShr
	opAShr
	opULt
	opULe
	opSLt
	opSLe
	opExtract // low bits: val = width
	opZExt
	opSExt
	opFAdd
	opFSub
	opFMul
	opFDiv
	opFNeg
	opFAbs
	opFLt
	opFLe
	opFEq
	opFFromS // from signed BV
	opFFromU
	opFToS // to signed bv64, RTZ, only in-range is meaningful
	opFFromBits
	opFTrunc
	opFFloor
	opFCeil
)

var opSMT = map[Op]string{
	opNot: "not", opAnd: "and", opOr: "or", opIte: "ite", opEq: "=",
	opAdd: "bvadd", opSub: "bvsub", opMul: "bvmul", opUDiv: "bvudiv", opSDiv: "bvsdiv", opURem: "bvurem", opSRem: "bvsrem",
	opBAnd: "bvand", opBOr: "bvor", opBXor: "bvxor", opBNot: "bvnot", opNeg: "bvneg", opShl: "bvshl", opLShr: "bvlshr", opAShr: "bvashr",
	opULt: "bvult", opULe: "bvule", opSLt: "bvslt", opSLe: "bvsle",
	opFAdd: "fp.add RNE", opFSub: "fp.sub RNE", opFMul: "fp.mul RNE", opFDiv: "fp.div RNE", opFNeg: "fp.neg", opFAbs: "fp.abs",
	opFLt: "fp.lt", opFLe: "fp.leq", opFEq: "fp.eq",
	opFTrunc: "fp.roundToIntegral RTZ", opFFloor: "fp.roundToIntegral RTN", opFCeil: "fp.roundToIntegral RTP",
}

// Term is a hash-consed SMT term.
type Term struct {
	op      Op
	sort    Sort
	val     uint64
	a, b, c *Term
	name    string
	id      int32
	vars    []int32 // sorted var ids
	lo, hi  int64   // for BV terms: signed range when known
	ranged  bool
	epoch   int32
	cv      uint64
	defd    [2]int32 // solver generations in which it is defined
	fp      bool     // contains floating point
}

type tkey struct {
	op      Op
	sort    Sort
	val     uint64
	a, b, c int32
	name    string
}

// TB is a term bank (one per worker).
type TB struct {
	tab    map[tkey]*Term
	consts map[Sort]*[1024]*Term
	n      int32
	tt, ff *Term
	vars   []*Term
	varIdx map[string]*Term
	epoch  int32
	model  map[string]uint64
}

func newTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, consts: map[Sort]*[1024]*Term{}, varIdx: map[string]*Term{}}
	tb.ff = tb.mk(opConst, sBool, 0, nil, nil, nil)
	tb.tt = tb.mk(opConst, sBool, 1, nil, nil, nil)
	return tb
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	if len(x) == len(y) && &x[0] == &y[0] {
		return x
	}
	out := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			out = append(out, x[i])
			i++
		case x[i] > y[j]:
			out = append(out, y[j])
			j++
		default:
			out = append(out, x[i])
			i++
			j++
		}
	}
	out = append(out, x[i:]...)
	out = append(out, y[j:]...)
	if len(out) == len(x) {
		return x
	}
	if len(out) == len(y) {
		return y
	}
	return out
}

func (tb *TB) mk(op Op, s Sort, val uint64, a, b, c *Term) *Term {
	k := tkey{op, s, val, tid(a), tid(b), tid(c), ""}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, a: a, b: b, c: c, id: tb.n}
	tb.n++
	for _, x := range [3]*Term{a, b, c} {
		if x != nil {
			t.vars = mergeVars(t.vars, x.vars)
			t.fp = t.fp || x.fp
		}
	}
	t.fp = t.fp || s.K == kFP
	if s.K == kBV {
		tb.setRange(t)
	}
	tb.tab[k] = t
	return t
}

func (tb *TB) mkVar(name string, s Sort, lo, hi int64, ranged bool) *Term {
	// the key is canonical, so that models can travel between workers
	key := name
	if s != sBool {
		key = fmt.Sprintf("%s!%d.%d.%d.%d", name, s.K, s.W, lo, hi)
	}
	if t, ok := tb.varIdx[key]; ok {
		return t
	}
	t := &Term{op: opVar, sort: s, id: tb.n, name: key, val: uint64(len(tb.vars))}
	tb.n++
	t.vars = []int32{int32(len(tb.vars))}
	t.lo, t.hi, t.ranged, t.fp = lo, hi, ranged, s.K == kFP
	tb.vars = append(tb.vars, t)
	tb.varIdx[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tb *TB) setRange(t *Term) {
	w := t.sort.W
	full := func() {
		if w >= 64 {
			t.lo, t.hi = math.MinInt64, math.MaxInt64
		} else {
			t.lo, t.hi = -(1 << (w - 1)), 1<<(w-1)-1
		}
		t.ranged = false
	}
	fits := func(lo, hi int64) {
		if w < 64 && (lo < -(1<<(w-1)) || hi > 1<<(w-1)-1) {
			full()
			return
		}
		t.lo, t.hi, t.ranged = lo, hi, true
	}
	switch t.op {
	case opConst:
		v := sext(t.val, w)
		t.lo, t.hi, t.ranged = v, v, true
	case opZExt:
		if t.a.ranged && t.a.lo >= 0 {
			fits(t.a.lo, t.a.hi)
		} else if t.a.sort.W < 63 {
			fits(0, 1<<t.a.sort.W-1)
		} else {
			full()
		}
	case opSExt:
		if t.a.ranged {
			fits(t.a.lo, t.a.hi)
		} else {
			fits(-(1 << (t.a.sort.W - 1)), 1<<(t.a.sort.W-1)-1)
		}
	case opAdd:
		if t.a.ranged && t.b.ranged && small(t.a) && small(t.b) {
			fits(t.a.lo+t.b.lo, t.a.hi+t.b.hi)
		} else {
			full()
		}
	case opSub:
		if t.a.ranged && t.b.ranged && small(t.a) && small(t.b) {
			fits(t.a.lo-t.b.hi, t.a.hi-t.b.lo)
		} else {
			full()
		}
	case opIte:
		if t.b.ranged && t.c.ranged {
			fits(min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi))
		} else {
			full()
		}
	default:
		full()
	}
}

func small(t *Term) bool { return t.lo > -(1<<60) && t.hi < 1<<60 }

func (t *Term) isConst() bool { return t.op == opConst }

func (tb *TB) konst(s Sort, v uint64) *Term {
	if s.K == kBool {
		if v != 0 {
			return tb.tt
		}
		return tb.ff
	}
	v &= mask(s.W)
	if v < 1024 {
		c := tb.consts[s]
		if c == nil {
			c = new([1024]*Term)
			tb.consts[s] = c
		}
		if c[v] == nil {
			c[v] = tb.mk(opConst, s, v, nil, nil, nil)
		}
		return c[v]
	}
	return tb.mk(opConst, s, v, nil, nil, nil)
}

func (tb *TB) boolT(b bool) *Term {
	if b {
		return tb.tt
	}
	return tb.ff
}
func (tb *TB) int64T(v int64) *Term        { return tb.konst(sBV64, uint64(v)) }
func (tb *TB) byteT(v byte) *Term          { return tb.konst(sBV8, uint64(v)) }
func (tb *TB) floatT(f float64) *Term      { return tb.konst(sFP64, math.Float64bits(f)) }
func (tb *TB) bvT(w uint8, v uint64) *Term { return tb.konst(Sort{kBV, w}, v) }

func (tb *TB) not(x *Term) *Term {
	switch {
	case x == tb.tt:
		return tb.ff
	case x == tb.ff:
		return tb.tt
	case x.op == opNot:
		return x.a
	}
	return tb.mk(opNot, sBool, 0, x, nil, nil)
}

func (tb *TB) and(x, y *Term) *Term {
	if x == tb.ff || y == tb.ff {
		return tb.ff
	}
	if x == tb.tt || x == y {
		return y
	}
	if y == tb.tt {
		return x
	}
	if (x.op == opNot && x.a == y) || (y.op == opNot && y.a == x) {
		return tb.ff
	}
	return tb.mk(opAnd, sBool, 0, x, y, nil)
}

func (tb *TB) or(x, y *Term) *Term {
	if x == tb.tt || y == tb.tt {
		return tb.tt
	}
	if x == tb.ff || x == y {
		return y
	}
	if y == tb.ff {
		return x
	}
	if (x.op == opNot && x.a == y) || (y.op == opNot && y.a == x) {
		return tb.tt
	}
	return tb.mk(opOr, sBool, 0, x, y, nil)
}

func (tb *TB) ite(c, x, y *Term) *Term {
	if c == tb.tt || x == y {
		return x
	}
	if c == tb.ff {
		return y
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v", x.sort, y.sort))
	}
	if x.sort.K == kBool {
		if x == tb.tt && y == tb.ff {
			return c
		}
		if x == tb.ff && y == tb.tt {
			return tb.not(c)
		}
		if x == tb.tt {
			return tb.or(c, y)
		}
		if x == tb.ff {
			return tb.and(tb.not(c), y)
		}
		if y == tb.tt {
			return tb.or(tb.not(c), x)
		}
		if y == tb.ff {
			return tb.and(c, x)
		}
	}
	if c.op == opNot {
		return tb.ite(c.a, y, x)
	}
	return tb.mk(opIte, x.sort, 0, c, x, y)
}

func (tb *TB) eq(x, y *Term) *Term {
	if x == y && x.sort.K != kFP {
		return tb.tt
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("eq sort mismatch %v %v", x.sort, y.sort))
	}
	if x.isConst() && y.isConst() {
		return tb.boolT(x.val == y.val)
	}
	if x.sort.K == kFP {
		if ix, iy := exactInt(x), exactInt(y); ix != nil && iy != nil {
			return tb.eq(ix, iy)
		}
	}
	if x.sort.K == kBool {
		if x.isConst() {
			x, y = y, x
		}
		if y == tb.tt {
			return x
		}
		if y == tb.ff {
			return tb.not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && x.sort.K == kBV {
		switch x.op {
		case opZExt:
			if y.val > mask(x.a.sort.W) {
				return tb.ff
			}
			return tb.eq(x.a, tb.konst(x.a.sort, y.val))
		case opIte:
			if x.b.isConst() && x.c.isConst() {
				e1, e2 := x.b.val == y.val, x.c.val == y.val
				switch {
				case e1 && e2:
					return tb.tt
				case e1:
					return x.a
				case e2:
					return tb.not(x.a)
				default:
					return tb.ff
				}
			}
			if x.b.isConst() || x.c.isConst() {
				return tb.ite(x.a, tb.eq(x.b, y), tb.eq(x.c, y))
			}
		case opAdd:
			if x.b.isConst() {
				return tb.eq(x.a, tb.konst(x.sort, y.val-x.b.val))
			}
		}
		if x.ranged {
			v := sext(y.val, y.sort.W)
			if v < x.lo || v > x.hi {
				return tb.ff
			}
		}
	}
	if x.id > y.id && !y.isConst() {
		x, y = y, x
	}
	return tb.mk(opEq, sBool, 0, x, y, nil)
}

func (tb *TB) bin(op Op, x, y *Term) *Term {
	s := x.sort
	if x.sort != y.sort {
		panic(fmt.Sprintf("bin %v sort mismatch %v %v", op, x.sort, y.sort))
	}
	res := s
	switch op {
	case opULt, opULe, opSLt, opSLe, opFLt, opFLe, opFEq:
		res = sBool
	}
	if x.isConst() && y.isConst() {
		return tb.konst(res, evalBin(op, s, x.val, y.val))
	}
	switch op {
	case opFLt, opFLe, opFEq:
		if t := tb.fcmp(op, x, y); t != nil {
			return t
		}
	case opAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if x.op == opAdd && x.b.isConst() {
				return tb.bin(opAdd, x.a, tb.konst(s, x.b.val+y.val))
			}
			if x.op == opIte && x.b.isConst() && x.c.isConst() {
				return tb.ite(x.a, tb.bin(opAdd, x.b, y), tb.bin(opAdd, x.c, y))
			}
		}
	case opSub:
		if y.isConst() {
			return tb.bin(opAdd, x, tb.konst(s, -y.val))
		}
		if x == y {
			return tb.konst(s, 0)
		}
	case opMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 1 {
				return x
			}
			if y.val == 0 {
				return y
			}
		}
	case opBAnd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == mask(s.W) {
				return x
			}
			if x.op == opZExt && y.val&mask(x.a.sort.W) == mask(x.a.sort.W) {
				return x
			}
		}
		if x == y {
			return x
		}
	case opBOr, opBXor, opShl, opLShr, opAShr:
		if y.isConst() && y.val == 0 {
			return x
		}
		if (op == opBOr || op == opBXor) && x.isConst() && x.val == 0 {
			return y
		}
	case opSLt:
		if x == y {
			return tb.ff
		}
		if x.ranged && y.ranged {
			if x.hi < y.lo {
				return tb.tt
			}
			if x.lo >= y.hi {
				return tb.ff
			}
		}
	case opSLe:
		if x == y {
			return tb.tt
		}
		if x.ranged && y.ranged {
			if x.hi <= y.lo {
				return tb.tt
			}
			if x.lo > y.hi {
				return tb.ff
			}
		}
	case opULt:
		if x == y {
			return tb.ff
		}
		if y.isConst() && y.val == 0 {
			return tb.ff
		}
		if x.ranged && y.ranged && x.lo >= 0 && y.lo >= 0 {
			if x.hi < y.lo {
				return tb.tt
			}
			if x.lo >= y.hi {
				return tb.ff
			}
		}
		if t := tb.narrowCmp(op, x, y); t != nil {
			return t
		}
	case opULe:
		if x == y {
			return tb.tt
		}
		if x.isConst() && x.val == 0 {
			return tb.tt
		}
		if y.isConst() && y.val == mask(s.W) {
			return tb.tt
		}
		if x.ranged && y.ranged && x.lo >= 0 && y.lo >= 0 {
			if x.hi <= y.lo {
				return tb.tt
			}
			if x.lo > y.hi {
				return tb.ff
			}
		}
		if t := tb.narrowCmp(op, x, y); t != nil {
			return t
		}
	}
	if (op == opSLt || op == opSLe) && x.ranged && y.ranged && x.lo >= 0 && y.lo >= 0 {
		uop := opULt
		if op == opSLe {
			uop = opULe
		}
		if t := tb.narrowCmp(uop, x, y); t != nil {
			return t
		}
	}
	if (op == opSLt || op == opSLe) && y.isConst() && x.op == opAdd && x.b.isConst() && x.ranged && x.a.ranged && small(x.a) {
		// (a + c) < k with no overflow
		k := sext(y.val, s.W) - sext(x.b.val, s.W)
		if k > -(1<<60) && k < 1<<60 && s.W == 64 {
			return tb.bin(op, x.a, tb.konst(s, uint64(k)))
		}
	}
	if (op == opSLt || op == opSLe) && x.isConst() && y.op == opAdd && y.b.isConst() && y.ranged && y.a.ranged && small(y.a) {
		k := sext(x.val, s.W) - sext(y.b.val, s.W)
		if k > -(1<<60) && k < 1<<60 && s.W == 64 {
			return tb.bin(op, tb.konst(s, uint64(k)), y.a)
		}
	}
	return tb.mk(op, res, 0, x, y, nil)
}

// exactInt returns the integer term whose exact conversion x is.
func exactInt(x *Term) *Term {
	if x.op == opFFromS && x.a.ranged && x.a.lo > -(1<<53) && x.a.hi < 1<<53 {
		return x.a
	}
	return nil
}

// fcmp rewrites float comparisons that are really integer comparisons.
func (tb *TB) fcmp(op Op, x, y *Term) *Term {
	if x.sort.W != 64 {
		return nil
	}
	ix, iy := exactInt(x), exactInt(y)
	iop := map[Op]Op{opFLt: opSLt, opFLe: opSLe}
	switch {
	case ix != nil && iy != nil:
		if op == opFEq {
			return tb.eq(ix, iy)
		}
		return tb.bin(iop[op], ix, iy)
	case ix != nil && y.isConst() || iy != nil && x.isConst():
		k, left := y, true
		it := ix
		if it == nil {
			k, left, it = x, false, iy
		}
		f := math.Float64frombits(k.val)
		if f != f {
			return tb.ff
		}
		if op == opFEq {
			if f != math.Trunc(f) || math.Abs(f) >= 1<<53 {
				return tb.ff
			}
			return tb.eq(it, tb.konst(it.sort, uint64(int64(f))))
		}
		if f > 1<<53 {
			return tb.boolT(left)
		}
		if f < -(1 << 53) {
			return tb.boolT(!left)
		}
		// it <= f iff it <= floor f; it < f iff it < ceil f; f <= it iff ceil f <= it; f < it iff floor f < it
		g := math.Floor(f)
		if (op == opFLt) == left {
			g = math.Ceil(f)
		}
		kt := tb.konst(it.sort, uint64(int64(g)))
		if left {
			return tb.bin(iop[op], it, kt)
		}
		return tb.bin(iop[op], kt, it)
	}
	if x.op == opIte && (exactInt(x.b) != nil || x.b.isConst() || x.b.op == opIte) && (exactInt(x.c) != nil || x.c.isConst() || x.c.op == opIte) {
		return tb.ite(x.a, tb.bin(op, x.b, y), tb.bin(op, x.c, y))
	}
	if y.op == opIte && (exactInt(y.b) != nil || y.b.isConst() || y.b.op == opIte) && (exactInt(y.c) != nil || y.c.isConst() || y.c.op == opIte) {
		return tb.ite(y.a, tb.bin(op, x, y.b), tb.bin(op, x, y.c))
	}
	return nil
}

// narrowCmp rewrites comparisons of zero-extended bytes with constants to byte width.
func (tb *TB) narrowCmp(op Op, x, y *Term) *Term {
	if x.op == opZExt && y.isConst() {
		m := mask(x.a.sort.W)
		if y.val > m {
			return tb.tt
		}
		return tb.bin(op, x.a, tb.konst(x.a.sort, y.val))
	}
	if y.op == opZExt && x.isConst() {
		m := mask(y.a.sort.W)
		if x.val > m {
			return tb.ff
		}
		return tb.bin(op, tb.konst(y.a.sort, x.val), y.a)
	}
	if x.op == opZExt && y.op == opZExt && x.a.sort == y.a.sort {
		return tb.bin(op, x.a, y.a)
	}
	return nil
}

func (tb *TB) un(op Op, x *Term) *Term {
	if x.isConst() {
		return tb.konst(x.sort, evalUn(op, x.sort, x.val))
	}
	return tb.mk(op, x.sort, 0, x, nil, nil)
}

// resize converts a BV term to width w (signed: sign-extend).
func (tb *TB) resize(x *Term, w uint8, signed bool) *Term {
	if x.sort.W == w {
		return x
	}
	if x.isConst() {
		if signed {
			return tb.bvT(w, uint64(sext(x.val, x.sort.W)))
		}
		return tb.bvT(w, x.val)
	}
	if w < x.sort.W {
		if (x.op == opZExt || x.op == opSExt) && x.a.sort.W == w {
			return x.a
		}
		if (x.op == opZExt || x.op == opSExt) && x.a.sort.W < w {
			return tb.resize(x.a, w, x.op == opSExt)
		}
		if x.op == opIte {
			return tb.ite(x.a, tb.resize(x.b, w, signed), tb.resize(x.c, w, signed))
		}
		return tb.mk(opExtract, Sort{kBV, w}, uint64(w), x, nil, nil)
	}
	if x.op == opZExt {
		return tb.resize(x.a, w, false)
	}
	if signed {
		return tb.mk(opSExt, Sort{kBV, w}, 0, x, nil, nil)
	}
	return tb.mk(opZExt, Sort{kBV, w}, 0, x, nil, nil)
}

func (tb *TB) fFromS(x *Term) *Term {
	x = tb.resize(x, 64, true)
	if x.isConst() {
		return tb.floatT(float64(int64(x.val)))
	}
	if x.op == opIte && x.ranged {
		return tb.ite(x.a, tb.fFromS(x.b), tb.fFromS(x.c))
	}
	return tb.mk(opFFromS, sFP64, 0, x, nil, nil)
}

func (tb *TB) fFromU(x *Term) *Term {
	if x.isConst() {
		return tb.floatT(float64(x.val))
	}
	return tb.mk(opFFromU, sFP64, 0, x, nil, nil)
}

// fToS models Go's float64->int64 conversion on amd64 (out of range -> MinInt64).
func (tb *TB) fToS(x *Term) *Term {
	if x.isConst() {
		return tb.int64T(goFToS(math.Float64frombits(x.val)))
	}
	if x.op == opFFromS && x.a.ranged && x.a.lo > -(1<<53) && x.a.hi < 1<<53 {
		return x.a
	}
	if x.op == opIte {
		return tb.ite(x.a, tb.fToS(x.b), tb.fToS(x.c))
	}
	in := tb.and(tb.bin(opFLe, tb.floatT(-9223372036854775808.0), x), tb.bin(opFLt, x, tb.floatT(9223372036854775808.0)))
	return tb.ite(in, tb.mk(opFToS, sBV64, 0, x, nil, nil), tb.int64T(math.MinInt64))
}

func goFToS(f float64) int64 {
	if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
		return int64(f)
	}
	return math.MinInt64
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalUn(op Op, s Sort, v uint64) uint64 {
	if s.K == kFP {
		f := math.Float64frombits(v)
		switch op {
		case opFNeg:
			return v ^ 1<<63
		case opFAbs:
			return v &^ (1 << 63)
		case opFTrunc:
			return math.Float64bits(math.Trunc(f))
		case opFFloor:
			return math.Float64bits(math.Floor(f))
		case opFCeil:
			return math.Float64bits(math.Ceil(f))
		}
	}
	switch op {
	case opBNot:
		return ^v & mask(s.W)
	case opNeg:
		return -v & mask(s.W)
	}
	panic("evalUn")
}

func evalBin(op Op, s Sort, x, y uint64) uint64 {
	w := s.W
	m := mask(w)
	if s.K == kFP {
		if w == 32 {
			a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			switch op {
			case opFAdd:
				return uint64(math.Float32bits(a + b))
			case opFSub:
				return uint64(math.Float32bits(a - b))
			case opFMul:
				return uint64(math.Float32bits(a * b))
			case opFDiv:
				return uint64(math.Float32bits(a / b))
			case opFLt:
				return b2u(a < b)
			case opFLe:
				return b2u(a <= b)
			case opFEq:
				return b2u(a == b)
			}
		}
		a, b := math.Float64frombits(x), math.Float64frombits(y)
		switch op {
		case opFAdd:
			return math.Float64bits(a + b)
		case opFSub:
			return math.Float64bits(a - b)
		case opFMul:
			return math.Float64bits(a * b)
		case opFDiv:
			return math.Float64bits(a / b)
		case opFLt:
			return b2u(a < b)
		case opFLe:
			return b2u(a <= b)
		case opFEq:
			return b2u(a == b)
		}
		panic("evalBin fp")
	}
	sx, sy := sext(x, w), sext(y, w)
	switch op {
	case opAdd:
		return (x + y) & m
	case opSub:
		return (x - y) & m
	case opMul:
		return (x * y) & m
	case opUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case opURem:
		if y == 0 {
			return x
		}
		return x % y
	case opSDiv:
		if y == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case opSRem:
		if y == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case opBAnd:
		return x & y
	case opBOr:
		return x | y
	case opBXor:
		return x ^ y
	case opShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case opLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case opAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	case opULt:
		return b2u(x < y)
	case opULe:
		return b2u(x <= y)
	case opSLt:
		return b2u(sx < sy)
	case opSLe:
		return b2u(sx <= sy)
	}
	panic("evalBin")
}

// eval evaluates under the current model (tb.model, epoch memoised).
func (tb *TB) eval(t *Term) uint64 {
	if t.op == opConst {
		return t.val
	}
	if t.epoch == tb.epoch {
		return t.cv
	}
	var v uint64
	switch t.op {
	case opVar:
		v = tb.model[t.name]
		if _, ok := tb.model[t.name]; !ok && t.ranged && (t.lo > 0 || t.hi < 0) {
			v = uint64(t.lo) & mask(t.sort.W)
		}
	case opNot:
		v = tb.eval(t.a) ^ 1
	case opAnd:
		v = tb.eval(t.a)
		if v != 0 {
			v = tb.eval(t.b)
		}
	case opOr:
		v = tb.eval(t.a)
		if v == 0 {
			v = tb.eval(t.b)
		}
	case opIte:
		if tb.eval(t.a) != 0 {
			v = tb.eval(t.b)
		} else {
			v = tb.eval(t.c)
		}
	case opEq:
		v = b2u(tb.eval(t.a) == tb.eval(t.b))
	case opExtract:
		v = tb.eval(t.a) & mask(t.sort.W)
	case opZExt:
		v = tb.eval(t.a)
	case opSExt:
		v = uint64(sext(tb.eval(t.a), t.a.sort.W)) & mask(t.sort.W)
	case opFFromS:
		v = math.Float64bits(float64(int64(tb.eval(t.a))))
	case opFFromU:
		v = math.Float64bits(float64(tb.eval(t.a)))
	case opFToS:
		v = uint64(goFToS(math.Float64frombits(tb.eval(t.a))))
	case opFFromBits:
		v = tb.eval(t.a)
	case opBNot, opNeg, opFNeg, opFAbs, opFTrunc, opFFloor, opFCeil:
		v = evalUn(t.op, t.sort, tb.eval(t.a))
	default:
		v = evalBin(t.op, t.a.sort, tb.eval(t.a), tb.eval(t.b))
	}
	t.epoch, t.cv = tb.epoch, v
	return v
}

func (tb *TB) setModel(m map[string]uint64) {
	tb.model = m
	tb.epoch++
}

func constSMT(s Sort, v uint64) string {
	switch s.K {
	case kBool:
		if v != 0 {
			return "true"
		}
		return "false"
	case kBV:
		return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(s.W)) + ")"
	}
	f := math.Float64frombits(v)
	if f != f {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", v)
}

// ref returns the SMT text referring to t (after def).
func (t *Term) ref() string {
	switch t.op {
	case opConst:
		return constSMT(t.sort, t.val)
	case opVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// body returns the SMT expression of t in terms of its children's refs.
func (t *Term) body() string {
	switch t.op {
	case opExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.val-1, t.a.ref())
	case opZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.a.sort.W, t.a.ref())
	case opSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.a.sort.W, t.a.ref())
	case opFFromS:
		return "((_ to_fp 11 53) RNE " + t.a.ref() + ")"
	case opFFromU:
		return "((_ to_fp_unsigned 11 53) RNE " + t.a.ref() + ")"
	case opFToS:
		return "((_ fp.to_sbv 64) RTZ " + t.a.ref() + ")"
	case opFFromBits:
		return "((_ to_fp 11 53) " + t.a.ref() + ")"
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(opSMT[t.op])
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			b.WriteByte(' ')
			b.WriteString(x.ref())
		}
	}
	b.WriteByte(')')
	return b.String()
}
