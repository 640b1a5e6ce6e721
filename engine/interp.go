package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathStop ends the current path; it is not a target-program panic.
type pathStop struct {
	kind string // "infeasible", "unsupported", "limit", "done", "exit"
	msg  string
}

// targetPanic is a panic of the program under analysis.
type targetPanic struct {
	v     Value // Iface
	where string
}

func (w *W) unsupported(msg string) {
	panic(pathStop{"unsupported", msg + w.where()})
}

func (w *W) where() string {
	if w.cur == nil {
		return ""
	}
	var names []string
	for f := w.cur; f != nil && len(names) < 6; f = f.caller {
		names = append(names, f.fi.fn.String())
	}
	return " [in " + strings.Join(names, " < ") + "]"
}

func (w *W) rtPanic(msg string) {
	panic(targetPanic{Iface{w.sh.rtErrType, cstr("runtime error: " + msg)}, w.where()})
}

// W is a worker: one symbolic interpreter with its own heap, term bank and solver.
type W struct {
	id        int
	sh        *Shared
	tb        *TB
	sol       *Solver
	code      map[*ssa.Function]*fnInfo
	globals   map[*ssa.Global]*Value
	undo      []undoRec
	logging   bool
	cur       *frame
	steps     int64
	stepMax   int64
	depth     int
	mapMode   int
	methods   map[methKey]*ssa.Function
	implCache map[implKey]bool
	initNotes []string

	// path state
	p *pathState

	vfs          *vfs
	natives      map[*Value]any
	spec         int // >0: speculative (merging) execution
	instrCount   int64
	deferOwner   []*frame
	gors         []*gor
	g            *gor
	gfail        any
	schedN       int
	schedP       int
	clock        int64
	syncMaps     map[*Value]*Map
	fnSeen       map[*ssa.Function]bool
	symPure      map[*ssa.Function]int8
	ex           *Explorer
	onces        map[*Value]bool
	exactFmt     bool
	exitExpected bool
	exitCode     int64
	exitTexts    []Value
}

type methKey struct {
	t types.Type
	m *types.Func
}
type implKey struct {
	t types.Type
	i types.Type
}

type ref struct {
	slot int32 // >=0 register; -1 constant; -2 absent
	v    Value
}

type cins struct {
	in  ssa.Instruction
	ops []ref
	dst int32
}

type cblock struct {
	ins  []cins
	phis int
	pure int8 // 0 unknown 1 yes 2 no
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	intr     intrinsic
	regions  map[*ssa.BasicBlock]*region
	retPure  int8
	compiled bool
}

type frame struct {
	fi          *fnInfo
	caller      *frame
	regs        []Value
	block       *ssa.BasicBlock
	prev        *ssa.BasicBlock
	defers      []deferred
	result      Value
	panicking   *targetPanic
	recovered   bool
	phiOverride map[ssa.Value]Value
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

func (w *W) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.code[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn}
	w.code[fn] = fi
	fi.intr = w.sh.lookupIntrinsic(fn)
	if fi.intr != nil {
		return fi
	}
	w.compile(fi)
	return fi
}

func (w *W) compile(fi *fnInfo) {
	fn := fi.fn
	fi.compiled = true
	w.sh.ensureBuilt(fn)
	if fn.Blocks == nil {
		return
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) { slots[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = int(n)
	fi.blocks = make([]cblock, len(fn.Blocks))
	var rands []*ssa.Value
	for _, b := range fn.Blocks {
		cb := &fi.blocks[b.Index]
		cb.ins = make([]cins, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis++
			}
			ci := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			rands = in.Operands(rands[:0])
			ci.ops = make([]ref, len(rands))
			for i, r := range rands {
				if *r == nil {
					ci.ops[i] = ref{slot: -2}
					continue
				}
				if s, ok := slots[*r]; ok {
					ci.ops[i] = ref{slot: s}
					continue
				}
				ci.ops[i] = ref{slot: -1, v: w.staticValue(*r)}
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

type lazyErr struct{ msg string }

func (w *W) staticValue(v ssa.Value) (out Value) {
	defer func() {
		if r := recover(); r != nil {
			if ps, ok := r.(pathStop); ok {
				out = lazyErr{ps.msg}
				return
			}
			panic(r)
		}
	}()
	switch v := v.(type) {
	case *ssa.Const:
		return w.constValue(v)
	case *ssa.Global:
		return w.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	panic(fmt.Sprintf("staticValue %T", v))
}

func (w *W) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = w.zero(deref(g.Type()))
	w.globals[g] = p
	return p
}

func (fr *frame) get(w *W, r *ref) Value {
	if r.slot >= 0 {
		return fr.regs[r.slot]
	}
	if le, ok := r.v.(lazyErr); ok {
		w.unsupported(le.msg)
	}
	if r.slot == -2 {
		return nil
	}
	return r.v
}

func (w *W) call(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return w.callFn(f, args, nil)
	case *Closure:
		return w.callFn(f.fn, args, f.env)
	case *BoundNative:
		return f.f(w, args)
	case NilFunc:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *ssa.Builtin:
		return w.builtin(f, args, nil)
	}
	w.unsupported(fmt.Sprintf("call of %T", fn))
	return nil
}

func (w *W) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	fi := w.info(fn)
	if fi.intr != nil {
		if w.gors != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "os" {
			w.preempt()
		}
		if r, ok := fi.intr(w, fn, args); ok {
			return r
		}
		// intrinsic declined: fall through to real code
		if !fi.compiled {
			w.compile(fi)
		}
	}
	return w.callBody(fi, args, env)
}

func (w *W) callBody(fi *fnInfo, args []Value, env []Value) Value {
	fn := fi.fn
	if fi.blocks == nil {
		w.unsupported("function without body: " + fn.String())
	}
	if !w.fnSeen[fn] {
		w.fnSeen[fn] = true
	}
	if w.logging && w.spec == 0 {
		if v, ok := w.tryPureCall(fi, args, env); ok {
			return v
		}
	}
	w.depth++
	if w.depth > 3000 {
		w.depth = 0
		panic(pathStop{"limit", "call depth" + w.where()})
	}
	fr := &frame{fi: fi, caller: w.cur, regs: make([]Value, fi.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	fr.block = fn.Blocks[0]
	w.cur = fr
	if fn.Recover == nil && !hasDefer(fi) {
		w.run(fr)
	} else {
		w.runDeferring(fr)
	}
	w.cur = fr.caller
	w.depth--
	return fr.result
}

func hasDefer(fi *fnInfo) bool {
	return fi.fn.Recover != nil
}

// runDeferring runs a frame that may defer calls and recover.
func (w *W) runDeferring(fr *frame) {
	depth := w.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			w.cur = fr
			w.depth = depth
			fr.panicking = &tp
		}()
		w.run(fr)
	}()
	if fr.panicking != nil {
		w.runDefers(fr)
		if fr.panicking != nil {
			panic(*fr.panicking)
		}
		// recovered: run the recover block for named results
		w.cur = fr
		if fr.fi.fn.Recover != nil {
			fr.block = fr.fi.fn.Recover
			fr.prev = nil
			w.run(fr)
		} else {
			fr.result = w.zeroResults(fr.fi.fn)
		}
	}
}

func (w *W) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(res.At(0).Type())
	}
	return w.zero(res)
}

func (w *W) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := w.depth
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				w.cur = fr
				w.depth = depth
				fr.panicking = &tp
			}()
			w.deferOwner = append(w.deferOwner, fr)
			defer func() { w.deferOwner = w.deferOwner[:len(w.deferOwner)-1] }()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				w.builtin(b, d.args, d.call)
			} else {
				w.call(d.fn, d.args)
			}
		}()
		w.cur = fr
	}
}

func (w *W) run(fr *frame) {
	for {
		if fr.block == nil {
			return
		}
		cb := &fr.fi.blocks[fr.block.Index]
		if cb.phis > 0 {
			w.doPhis(fr, cb)
		}
		ins := cb.ins
		next := false
		for i := cb.phis; i < len(ins); i++ {
			c := &ins[i]
			w.steps++
			if w.steps > w.stepMax {
				panic(pathStop{"limit", "step limit" + w.where()})
			}
			switch in := c.in.(type) {
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, fr.block.Succs[0]
				next = true
			case *ssa.If:
				cond := fr.get(w, &c.ops[0]).(*Term)
				if !cond.isConst() && w.tryMerge(fr, cond) {
					next = true
					break
				}
				s := 1
				if w.branch(cond) {
					s = 0
				}
				fr.prev, fr.block = fr.block, fr.block.Succs[s]
				next = true
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
				case 1:
					fr.result = fr.get(w, &c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for i := range c.ops {
						t[i] = fr.get(w, &c.ops[i])
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.RunDefers:
				w.runDefers(fr)
				if fr.panicking != nil {
					panic(*fr.panicking)
				}
			case *ssa.Panic:
				v := fr.get(w, &c.ops[0])
				panic(targetPanic{v, w.where()})
			default:
				v := w.exec(fr, c, in)
				if c.dst >= 0 {
					fr.regs[c.dst] = v
				}
			}
			if next {
				break
			}
		}
		if !next {
			panic("block fell through")
		}
	}
}

func (w *W) doPhis(fr *frame, cb *cblock) {
	if fr.phiOverride != nil {
		for i := 0; i < cb.phis; i++ {
			c := &cb.ins[i]
			fr.regs[c.dst] = fr.phiOverride[c.in.(ssa.Value)]
		}
		fr.phiOverride = nil
		return
	}
	var k int
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			k = i
			break
		}
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := 0; i < cb.phis; i++ {
		vals = append(vals, fr.get(w, &cb.ins[i].ops[k]))
	}
	for i := 0; i < cb.phis; i++ {
		fr.regs[cb.ins[i].dst] = vals[i]
	}
}

func (w *W) exec(fr *frame, c *cins, in ssa.Instruction) Value {
	switch in := in.(type) {
	case *ssa.BinOp:
		return w.binop(in.Op, in.X.Type(), fr.get(w, &c.ops[0]), fr.get(w, &c.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		return w.unop(in, fr.get(w, &c.ops[0]))
	case *ssa.Alloc:
		p := new(Value)
		*p = w.zero(deref(in.Type()))
		return p
	case *ssa.Store:
		p := w.ptr(fr.get(w, &c.ops[0]))
		if w.gors != nil {
			switch in.Addr.(type) {
			case *ssa.FreeVar, *ssa.Global:
				w.preempt()
			}
		}
		w.storeVal(p, fr.get(w, &c.ops[1]))
		return nil
	case *ssa.FieldAddr:
		p := w.ptr(fr.get(w, &c.ops[0]))
		s, ok := (*p).(StructV)
		if !ok {
			w.unsupported(fmt.Sprintf("field address of %T", *p))
		}
		return &s[in.Field]
	case *ssa.Field:
		return fr.get(w, &c.ops[0]).(StructV)[in.Field]
	case *ssa.IndexAddr:
		x := fr.get(w, &c.ops[0])
		idx := fr.get(w, &c.ops[1]).(*Term)
		switch x := x.(type) {
		case []Value:
			i := w.index(idx, in.Index.Type(), len(x))
			return &x[i]
		case *Value:
			a := (*w.ptr(x)).(Arr)
			i := w.index(idx, in.Index.Type(), len(a))
			return &a[i]
		}
		w.unsupported(fmt.Sprintf("indexaddr %T", x))
	case *ssa.Index:
		x := fr.get(w, &c.ops[0])
		idx := fr.get(w, &c.ops[1]).(*Term)
		switch x := x.(type) {
		case Arr:
			return x[w.index(idx, in.Index.Type(), len(x))]
		case *Str:
			return w.strAt(x, idx, in.Index.Type())
		}
		w.unsupported(fmt.Sprintf("index %T", x))
	case *ssa.Lookup:
		x := fr.get(w, &c.ops[0])
		k := fr.get(w, &c.ops[1])
		switch x := x.(type) {
		case *Str:
			return w.strAt(x, k.(*Term), in.Index.Type())
		case *Map:
			e := w.mapFind(x, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				return Tuple{v, w.tb.boolT(e != nil)}
			}
			return v
		}
	case *ssa.MapUpdate:
		m, _ := fr.get(w, &c.ops[0]).(*Map)
		w.mapSet(m, fr.get(w, &c.ops[1]), copyVal(fr.get(w, &c.ops[2])))
		return nil
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		return &Map{kt: mt.Key(), vt: mt.Elem(), idx: map[string]int{}}
	case *ssa.MakeSlice:
		l := w.concretizeS(fr.get(w, &c.ops[0]).(*Term), in.Len.Type())
		cp := w.concretizeS(fr.get(w, &c.ops[1]).(*Term), in.Cap.Type())
		et := in.Type().Underlying().(*types.Slice).Elem()
		if l < 0 || cp < l || cp > 1<<26 {
			w.rtPanic("makeslice: len out of range")
		}
		return w.makeSlice(et, int(l), int(cp))
	case *ssa.MakeInterface:
		return Iface{in.X.Type(), fr.get(w, &c.ops[0])}
	case *ssa.MakeClosure:
		env := make([]Value, len(c.ops)-1)
		for i := range env {
			env[i] = fr.get(w, &c.ops[i+1])
		}
		return &Closure{in.Fn.(*ssa.Function), env}
	case *ssa.ChangeType:
		return fr.get(w, &c.ops[0])
	case *ssa.ChangeInterface:
		return fr.get(w, &c.ops[0])
	case *ssa.Convert:
		return w.convert(in.X.Type(), in.Type(), fr.get(w, &c.ops[0]))
	case *ssa.MultiConvert:
		w.unsupported("multiconvert")
	case *ssa.SliceToArrayPointer:
		w.unsupported("slice to array pointer")
	case *ssa.Extract:
		return fr.get(w, &c.ops[0]).(Tuple)[in.Index]
	case *ssa.Slice:
		return w.slice(in, fr.get(w, &c.ops[0]), fr.get(w, &c.ops[1]), fr.get(w, &c.ops[2]), fr.get(w, &c.ops[3]))
	case *ssa.TypeAssert:
		return w.typeAssert(in, fr.get(w, &c.ops[0]).(Iface))
	case *ssa.Call:
		return w.doCall(fr, &in.Call, c)
	case *ssa.Defer:
		fn, args := w.prepCall(fr, &in.Call, c)
		to := fr
		if in.DeferStack != nil {
			to = fr.get(w, &c.ops[len(c.ops)-1]).(*frame)
		}
		to.defers = append(to.defers, deferred{fn, args, &in.Call})
		return nil
	case *ssa.Range:
		x := fr.get(w, &c.ops[0])
		switch x := x.(type) {
		case *Map:
			return &mapIter{es: w.mapOrder(x)}
		case *Str:
			return &strIter{s: x}
		}
	case *ssa.Next:
		switch it := fr.get(w, &c.ops[0]).(type) {
		case *mapIter:
			for it.i < len(it.es) && it.es[it.i].dead {
				it.i++
			}
			if it.i >= len(it.es) {
				tt := in.Type().(*types.Tuple)
				return Tuple{w.tb.ff, w.zeroOrNil(tt.At(1).Type()), w.zeroOrNil(tt.At(2).Type())}
			}
			e := it.es[it.i]
			it.i++
			return Tuple{w.tb.tt, e.k, copyVal(e.v)}
		case *strIter:
			if it.i >= w.slen(it.s) {
				return Tuple{w.tb.ff, w.tb.int64T(0), w.tb.bvT(32, 0)}
			}
			r, n := w.decodeRune(it.s, it.i)
			i := it.i
			it.i += n
			return Tuple{w.tb.tt, w.tb.int64T(int64(i)), r}
		}
	case *ssa.MakeChan:
		return &Chan{cap: int(w.concretizeS(fr.get(w, &c.ops[0]).(*Term), in.Size.Type()))}
	case *ssa.Send:
		ch, _ := fr.get(w, &c.ops[0]).(*Chan)
		if w.spec > 0 {
			panic(specAbort{})
		}
		w.chanSend(ch, fr.get(w, &c.ops[1]))
		return nil
	case *ssa.Select:
		return w.selectStmt(fr, c, in)
	case *ssa.Go:
		fn, args := w.prepCall(fr, &in.Call, c)
		w.goStmt(fn, args, &in.Call)
		return nil
	}
	w.unsupported(fmt.Sprintf("instruction %T %s", in, in))
	return nil
}

func (w *W) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return w.zero(t)
}

func (w *W) makeSlice(et types.Type, l, c int) []Value {
	s := make([]Value, l, c)
	full := s[:c]
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range full {
			full[i] = w.zero(et)
		}
	default:
		if c > 0 {
			z := w.zero(et)
			for i := range full {
				full[i] = z
			}
		}
	}
	return s
}

func (w *W) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		w.unsupported(fmt.Sprintf("pointer is %T", v))
	}
	if p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// strAt indexes a string. A symbolic index into a short concrete string (a digit
// table, say) gives an ite over its bytes instead of a fork.
func (w *W) strAt(x *Str, k *Term, typ types.Type) Value {
	n := w.slen(x)
	if k.isConst() || x.b != nil || n == 0 || n > 64 {
		return w.sat(x, w.index(k, typ, n))
	}
	b := typ.Underlying().(*types.Basic)
	_, signed := basicSort(b)
	t := w.tb.resize(k, 64, signed)
	in := w.tb.and(w.tb.bin(opSLe, w.tb.int64T(0), t), w.tb.bin(opSLt, t, w.tb.int64T(int64(n))))
	if !w.branch(in) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	v := w.tb.byteT(x.s[n-1])
	for i := n - 2; i >= 0; i-- {
		v = w.tb.ite(w.tb.eq(t, w.tb.int64T(int64(i))), w.tb.byteT(x.s[i]), v)
	}
	return v
}

// index checks bounds and concretizes an index.
func (w *W) index(t *Term, typ types.Type, n int) int {
	b := typ.Underlying().(*types.Basic)
	_, signed := basicSort(b)
	t = w.tb.resize(t, 64, signed)
	if t.isConst() {
		i := int64(t.val)
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	in := w.tb.and(w.tb.bin(opSLe, w.tb.int64T(0), t), w.tb.bin(opSLt, t, w.tb.int64T(int64(n))))
	if !w.branch(in) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(w.concretize(t))
}

func (w *W) concretizeS(t *Term, typ types.Type) int64 {
	b := typ.Underlying().(*types.Basic)
	_, signed := basicSort(b)
	return int64(w.concretize(w.tb.resize(t, 64, signed)))
}

func (w *W) doCall(fr *frame, cc *ssa.CallCommon, c *cins) Value {
	fn, args := w.prepCall(fr, cc, c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return w.builtin(b, args, cc)
	}
	return w.call(fn, args)
}

func (w *W) prepCall(fr *frame, cc *ssa.CallCommon, c *cins) (Value, []Value) {
	v := fr.get(w, &c.ops[0])
	if cc.IsInvoke() {
		recv := v.(Iface)
		if recv.t == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		if bn, ok := recv.v.(*nativeObj); ok {
			args := make([]Value, 0, len(c.ops)-1)
			for i := 1; i <= len(cc.Args); i++ {
				args = append(args, fr.get(w, &c.ops[i]))
			}
			name := cc.Method.Name()
			return &BoundNative{name, func(w *W, args []Value) Value { return bn.call(w, name, args) }}, args
		}
		m := w.method(recv.t, cc.Method)
		args := make([]Value, 0, len(c.ops))
		args = append(args, copyVal(recv.v))
		for i := 1; i <= len(cc.Args); i++ {
			args = append(args, fr.get(w, &c.ops[i]))
		}
		return m, args
	}
	args := make([]Value, 0, len(cc.Args))
	for i := 1; i <= len(cc.Args); i++ {
		args = append(args, fr.get(w, &c.ops[i]))
	}
	return v, args
}

// nativeObj is an engine-implemented object behind an interface.
type nativeObj struct {
	call func(w *W, method string, args []Value) Value
}

func (w *W) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.sh.lookupMethod(t, m)
	if f == nil {
		w.unsupported("method " + m.Name() + " of " + t.String())
	}
	w.methods[k] = f
	return f
}

func (w *W) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if b, ok := w.implCache[k]; ok {
		return b
	}
	b := types.Implements(t, it.Underlying().(*types.Interface))
	w.implCache[k] = b
	return b
}

func (w *W) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	at := in.AssertedType
	if x.t != nil {
		if types.IsInterface(at) {
			if w.implements(x.t, at) {
				ok, v = true, x
			}
		} else if types.Identical(x.t, at) {
			ok, v = true, copyVal(x.v)
		}
	}
	if !ok {
		if !in.CommaOk {
			if x.t == nil {
				w.rtPanic("interface conversion: interface is nil, not " + at.String())
			}
			w.rtPanic("interface conversion: interface is " + x.t.String() + ", not " + at.String())
		}
		v = w.zero(at)
	}
	if in.CommaOk {
		return Tuple{v, w.tb.boolT(ok)}
	}
	return v
}

func (w *W) slice(in *ssa.Slice, x, lo, hi, mx Value) Value {
	var n, cp int
	switch x := x.(type) {
	case *Str:
		n = w.slen(x)
		cp = n
	case []Value:
		n, cp = len(x), cap(x)
	case *Value:
		a, ok := (*w.ptr(x)).(Arr)
		if !ok {
			w.unsupported("slice of pointer")
		}
		n, cp = len(a), len(a)
	default:
		w.unsupported(fmt.Sprintf("slice of %T", x))
	}
	tb := w.tb
	get := func(v Value, op ssa.Value, def int) *Term {
		if v == nil {
			return tb.int64T(int64(def))
		}
		_, signed := basicSort(op.Type().Underlying().(*types.Basic))
		return tb.resize(v.(*Term), 64, signed)
	}
	l := get(lo, in.Low, 0)
	h := get(hi, in.High, n)
	m := get(mx, in.Max, cp)
	if !(l.isConst() && h.isConst() && m.isConst()) {
		if w.spec > 0 {
			panic(specAbort{})
		}
		z := tb.int64T(0)
		ok := tb.and(tb.and(tb.bin(opSLe, z, l), tb.bin(opSLe, l, h)), tb.and(tb.bin(opSLe, h, m), tb.bin(opSLe, m, tb.int64T(int64(cp)))))
		if !w.branch(ok) {
			w.rtPanic("slice bounds out of range")
		}
	}
	li, hi2, mi := int64(w.concretize(l)), int64(w.concretize(h)), int64(w.concretize(m))
	if li < 0 || li > hi2 || hi2 > mi || mi > int64(cp) {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", li, hi2, cp))
	}
	switch x := x.(type) {
	case *Str:
		return w.ssub(x, int(li), int(hi2))
	case []Value:
		if x == nil {
			return x
		}
		return x[li:hi2:mi]
	case *Value:
		a := (*x).(Arr)
		return []Value(a[li:hi2:mi])
	}
	return nil
}

// decodeRune decodes one rune of s at i, branching on symbolic bytes as UTF-8 requires.
func (w *W) decodeRune(s *Str, i int) (*Term, int) {
	tb := w.tb
	n := w.slen(s) - i
	b0 := w.sat(s, i)
	if w.branch(tb.bin(opULt, b0, tb.byteT(0x80))) {
		return tb.resize(b0, 32, false), 1
	}
	rng := func(x *Term, lo, hi byte) *Term {
		return tb.and(tb.bin(opULe, tb.byteT(lo), x), tb.bin(opULe, x, tb.byteT(hi)))
	}
	z := func(x *Term, m uint64, sh uint64) *Term {
		y := tb.bin(opBAnd, tb.resize(x, 32, false), tb.bvT(32, m))
		return tb.bin(opShl, y, tb.bvT(32, sh))
	}
	bad := tb.bvT(32, 0xFFFD)
	if n >= 2 {
		b1 := w.sat(s, i+1)
		if w.branch(rng(b0, 0xC2, 0xDF)) {
			if w.branch(rng(b1, 0x80, 0xBF)) {
				return tb.bin(opBOr, z(b0, 0x1F, 6), z(b1, 0x3F, 0)), 2
			}
			return bad, 1
		}
		if n >= 3 {
			b2 := w.sat(s, i+2)
			if w.branch(rng(b0, 0xE0, 0xEF)) {
				e0, ed := tb.eq(b0, tb.byteT(0xE0)), tb.eq(b0, tb.byteT(0xED))
				c1 := tb.ite(e0, rng(b1, 0xA0, 0xBF), tb.ite(ed, rng(b1, 0x80, 0x9F), rng(b1, 0x80, 0xBF)))
				if w.branch(tb.and(c1, rng(b2, 0x80, 0xBF))) {
					return tb.bin(opBOr, z(b0, 0xF, 12), tb.bin(opBOr, z(b1, 0x3F, 6), z(b2, 0x3F, 0))), 3
				}
				return bad, 1
			}
			if n >= 4 {
				b3 := w.sat(s, i+3)
				if w.branch(rng(b0, 0xF0, 0xF4)) {
					f0, f4 := tb.eq(b0, tb.byteT(0xF0)), tb.eq(b0, tb.byteT(0xF4))
					c1 := tb.ite(f0, rng(b1, 0x90, 0xBF), tb.ite(f4, rng(b1, 0x80, 0x8F), rng(b1, 0x80, 0xBF)))
					if w.branch(tb.and(c1, tb.and(rng(b2, 0x80, 0xBF), rng(b3, 0x80, 0xBF)))) {
						return tb.bin(opBOr, tb.bin(opBOr, z(b0, 7, 18), z(b1, 0x3F, 12)), tb.bin(opBOr, z(b2, 0x3F, 6), z(b3, 0x3F, 0))), 4
					}
					return bad, 1
				}
			}
		}
	}
	return bad, 1
}

// encodeRune returns the UTF-8 bytes of r.
func (w *W) encodeRune(r *Term) []*Term {
	tb := w.tb
	if r.isConst() {
		var out []*Term
		for _, c := range []byte(string(rune(int32(r.val)))) {
			out = append(out, tb.byteT(c))
		}
		return out
	}
	k := func(v uint64) *Term { return tb.bvT(32, v) }
	lo := func(sh, m, or uint64) *Term {
		x := tb.bin(opBAnd, tb.bin(opLShr, r, k(sh)), k(m))
		return tb.resize(tb.bin(opBOr, x, k(or)), 8, false)
	}
	if w.branch(tb.bin(opULt, r, k(0x80))) {
		return []*Term{tb.resize(r, 8, false)}
	}
	if w.branch(tb.bin(opULt, r, k(0x800))) {
		return []*Term{lo(6, 0x1F, 0xC0), lo(0, 0x3F, 0x80)}
	}
	surr := tb.and(tb.bin(opULe, k(0xD800), r), tb.bin(opULe, r, k(0xDFFF)))
	if w.branch(tb.or(surr, tb.bin(opULt, k(0x10FFFF), r))) {
		return []*Term{tb.byteT(0xEF), tb.byteT(0xBF), tb.byteT(0xBD)}
	}
	if w.branch(tb.bin(opULt, r, k(0x10000))) {
		return []*Term{lo(12, 0xF, 0xE0), lo(6, 0x3F, 0x80), lo(0, 0x3F, 0x80)}
	}
	return []*Term{lo(18, 7, 0xF0), lo(12, 0x3F, 0x80), lo(6, 0x3F, 0x80), lo(0, 0x3F, 0x80)}
}

func isNilFloat(f float64) bool { return math.IsNaN(f) }

var _ = token.ADD
