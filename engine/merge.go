package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// specAbort aborts speculative (merging) evaluation; the caller falls back to forking.
type specAbort struct{}

type region struct {
	blocks []*ssa.BasicBlock // topological, excluding the head
	exits  []*ssa.BasicBlock
}

var noRegion = &region{}

func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			c, ok := in.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.ChangeType, *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Slice:
		return true
	case *ssa.Lookup:
		_, isMap := in.X.Type().Underlying().(*types.Map)
		return !isMap
	case *ssa.Convert:
		_, a := in.X.Type().Underlying().(*types.Basic)
		bb, b := in.Type().Underlying().(*types.Basic)
		return a && b && bb.Kind() != types.String && in.X.Type().Underlying().(*types.Basic).Info()&types.IsString == 0
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		f := in.Call.StaticCallee()
		return f != nil && purish(f, 0)
	}
	return false
}

// purish: cheap static filter for calls allowed in merged regions.
func purish(f *ssa.Function, d int) bool {
	if d > 3 || f.Blocks == nil || len(f.Blocks) > 40 || f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
					if n := bi.Name(); n != "len" && n != "cap" {
						return false
					}
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || !purish(g, d+1) {
					return false
				}
				continue
			}
			if !pureInstr(in) {
				return false
			}
		}
	}
	return acyclic(f)
}

func acyclic(f *ssa.Function) bool {
	state := make([]int8, len(f.Blocks))
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 {
				return false
			}
			if state[s.Index] == 0 && !visit(s) {
				return false
			}
		}
		state[b.Index] = 2
		return true
	}
	return visit(f.Blocks[0])
}

func (w *W) pureBlock(fi *fnInfo, b *ssa.BasicBlock) bool {
	cb := &fi.blocks[b.Index]
	if cb.pure == 0 {
		cb.pure = 1
		if len(b.Instrs) > 40 {
			cb.pure = 2
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok || !pureInstr(in) {
				cb.pure = 2
				break
			}
		}
	}
	return cb.pure == 1
}

// regionOf finds the largest merged region headed by b with at most two exits.
func (w *W) regionOf(fi *fnInfo, b *ssa.BasicBlock) *region {
	if fi.regions == nil {
		fi.regions = map[*ssa.BasicBlock]*region{}
	}
	if r, ok := fi.regions[b]; ok {
		return r
	}
	in := map[*ssa.BasicBlock]bool{b: true}
	var order []*ssa.BasicBlock
	best := noRegion
	exitsOf := func() []*ssa.BasicBlock {
		var ex []*ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		chk := func(x *ssa.BasicBlock) {
			for _, s := range x.Succs {
				if (!in[s] || s == b) && !seen[s] {
					seen[s] = true
					ex = append(ex, s)
				}
			}
		}
		chk(b)
		for _, x := range order {
			chk(x)
		}
		return ex
	}
	for len(order) < 24 {
		var cand *ssa.BasicBlock
		for _, x := range exitsOf() {
			if x == b || !w.pureBlock(fi, x) {
				continue
			}
			ok := true
			for _, p := range x.Preds {
				if !in[p] {
					ok = false
				}
			}
			if ok {
				cand = x
				break
			}
		}
		if cand == nil {
			break
		}
		in[cand] = true
		order = append(order, cand)
		if ex := exitsOf(); len(ex) <= 2 {
			best = &region{blocks: append([]*ssa.BasicBlock{}, order...), exits: ex}
		}
	}
	if best == noRegion {
		// an If whose two successors coincide still merges phis
		if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
			best = &region{exits: []*ssa.BasicBlock{b.Succs[0]}}
		}
	}
	fi.regions[b] = best
	return best
}

type edge struct {
	from *ssa.BasicBlock
	idx  int // predecessor index in target
	c    *Term
}

func predIndex(to, from *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return 0
}

func (w *W) mergeVal(c *Term, x, y Value) Value {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok || a.sort != b.sort {
			panic(specAbort{})
		}
		return w.tb.ite(c, a, b)
	case *Str:
		b, ok := y.(*Str)
		if !ok || a.opq || b.opq {
			panic(specAbort{})
		}
		if a == b || (a.b == nil && b.b == nil && a.s == b.s) {
			return a
		}
		if w.slen(a) != w.slen(b) {
			panic(specAbort{})
		}
		out := make([]*Term, w.slen(a))
		for i := range out {
			out[i] = w.tb.ite(c, w.sat(a, i), w.sat(b, i))
		}
		return w.mkStr(out)
	case Tuple:
		b, ok := y.(Tuple)
		if !ok || len(a) != len(b) {
			panic(specAbort{})
		}
		o := make(Tuple, len(a))
		for i := range a {
			o[i] = w.mergeVal(c, a[i], b[i])
		}
		return o
	case *Value:
		if b, ok := y.(*Value); ok && a == b {
			return a
		}
	case Iface:
		if b, ok := y.(Iface); ok {
			if a.t == nil && b.t == nil {
				return a
			}
			if a.t != nil && b.t != nil && types.Identical(a.t, b.t) {
				if _, ok := a.v.(*Value); ok {
					return Iface{a.t, w.mergeVal(c, a.v, b.v)}
				}
			}
		}
	case nil:
		if y == nil {
			return nil
		}
	}
	panic(specAbort{})
}

// spec runs f speculatively; false if it aborted.
func (w *W) speculate(f func()) (ok bool) {
	cur, depth, steps := w.cur, w.depth, w.steps
	w.spec++
	defer func() {
		w.spec--
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, targetPanic:
				w.cur, w.depth = cur, depth
				ok = false
				return
			case pathStop:
				ps := r.(pathStop)
				if ps.kind == "unsupported" {
					w.cur, w.depth = cur, depth
					ok = false
					return
				}
			}
			panic(r)
		}
		_ = steps
	}()
	f()
	return true
}

// evalBlocks evaluates blocks (topological order) given initial edges; returns edges leaving the set.
func (w *W) evalBlocks(fr *frame, blocks []*ssa.BasicBlock, edges map[*ssa.BasicBlock][]edge, inset map[*ssa.BasicBlock]bool, ret func(reach *Term, v Value)) {
	tb := w.tb
	for _, x := range blocks {
		es := edges[x]
		reach := tb.ff
		for _, e := range es {
			reach = tb.or(reach, e.c)
		}
		if reach == tb.ff {
			continue
		}
		cb := &fr.fi.blocks[x.Index]
		if cb.phis > 0 {
			vals := w.mergePhis(fr, cb, es)
			for i, v := range vals {
				fr.regs[cb.ins[i].dst] = v
			}
		}
		for i := cb.phis; i < len(cb.ins); i++ {
			c := &cb.ins[i]
			w.steps++
			switch in := c.in.(type) {
			case *ssa.Jump:
				s := x.Succs[0]
				edges[s] = append(edges[s], edge{x, predIndex(s, x, 0), reach})
			case *ssa.If:
				cond := fr.get(w, &c.ops[0]).(*Term)
				w.addIfEdges(edges, x, reach, cond)
			case *ssa.Return:
				var v Value
				switch len(c.ops) {
				case 0:
				case 1:
					v = fr.get(w, &c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for i := range c.ops {
						t[i] = fr.get(w, &c.ops[i])
					}
					v = t
				}
				ret(reach, v)
			default:
				v := w.exec(fr, c, in)
				if c.dst >= 0 {
					fr.regs[c.dst] = v
				}
			}
		}
	}
}

func (w *W) addIfEdges(edges map[*ssa.BasicBlock][]edge, x *ssa.BasicBlock, reach, cond *Term) {
	tb := w.tb
	s0, s1 := x.Succs[0], x.Succs[1]
	c0, c1 := tb.and(reach, cond), tb.and(reach, tb.not(cond))
	if c0 != tb.ff {
		edges[s0] = append(edges[s0], edge{x, predIndex(s0, x, 0), c0})
	}
	if c1 != tb.ff {
		n := 0
		if s0 == s1 {
			n = 1
		}
		edges[s1] = append(edges[s1], edge{x, predIndex(s1, x, n), c1})
	}
}

func (w *W) mergePhis(fr *frame, cb *cblock, es []edge) []Value {
	vals := make([]Value, cb.phis)
	for i := range vals {
		ops := cb.ins[i].ops
		v := fr.get(w, &ops[es[len(es)-1].idx])
		for j := len(es) - 2; j >= 0; j-- {
			v = w.mergeVal(es[j].c, fr.get(w, &ops[es[j].idx]), v)
		}
		vals[i] = v
	}
	return vals
}

// tryMerge executes the pure region headed by the current block without forking inside it.
func (w *W) tryMerge(fr *frame, cond *Term) bool {
	if w.sh.noMerge || !w.logging {
		return false
	}
	b := fr.block
	r := w.regionOf(fr.fi, b)
	if len(r.exits) == 0 {
		return false
	}
	edges := map[*ssa.BasicBlock][]edge{}
	overrides := make([]map[ssa.Value]Value, len(r.exits))
	conds := make([]*Term, len(r.exits))
	saved := append([]Value{}, fr.regs...)
	ok := w.speculate(func() {
		// evaluation must not clobber phi inputs at re-entered heads: results are kept in regs
		w.addIfEdges(edges, b, w.tb.tt, cond)
		exitEdges := map[*ssa.BasicBlock][]edge{}
		if len(r.blocks) > 0 {
			w.evalBlocks(fr, r.blocks, edges, nil, nil)
		}
		for i, e := range r.exits {
			es := edges[e]
			exitEdges[e] = es
			c := w.tb.ff
			for _, x := range es {
				c = w.tb.or(c, x.c)
			}
			conds[i] = c
			cb := &fr.fi.blocks[e.Index]
			if cb.phis > 0 && len(es) > 0 {
				vals := w.mergePhis(fr, cb, es)
				ov := make(map[ssa.Value]Value, len(vals))
				for k, v := range vals {
					ov[cb.ins[k].in.(ssa.Value)] = v
				}
				overrides[i] = ov
			}
		}
	})
	if !ok {
		copy(fr.regs, saved)
		return false
	}
	k := 0
	if len(r.exits) == 2 {
		if conds[0] == w.tb.ff {
			k = 1
		} else if conds[1] == w.tb.ff {
			k = 0
		} else if !w.branch(conds[0]) {
			k = 1
		}
	}
	e := r.exits[k]
	fr.prev = b
	if es := edges[e]; len(es) > 0 {
		fr.prev = es[0].from
	}
	fr.block = e
	fr.phiOverride = overrides[k]
	return true
}

func symbolicArg(v Value) bool {
	switch v := v.(type) {
	case *Term:
		return !v.isConst()
	case *Str:
		return v.b != nil
	}
	return false
}

// tryPureCall summarises a loop-free side-effect-free function as an ite-expression.
func (w *W) tryPureCall(fi *fnInfo, args, env []Value) (Value, bool) {
	if w.sh.noMerge || fi.retPure == 2 || len(env) > 0 {
		return nil, false
	}
	if fi.retPure == 0 {
		fi.retPure = 2
		if len(fi.fn.Blocks) > 1 && purish(fi.fn, 0) && scalarResults(fi.fn) {
			fi.retPure = 1
		} else {
			return nil, false
		}
	}
	sym := false
	for _, a := range args {
		if symbolicArg(a) {
			sym = true
		}
	}
	if !sym {
		return nil, false
	}
	var res Value
	ok := w.speculate(func() { res = w.pureEval(fi, args) })
	return res, ok
}

func scalarResults(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		b, ok := rs.At(i).Type().Underlying().(*types.Basic)
		if !ok {
			return false
		}
		if s, _ := basicSort(b); s.W == 0 {
			return false
		}
	}
	return true
}

func topo(f *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := make([]bool, len(f.Blocks))
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				visit(s)
			}
		}
		out = append(out, b)
	}
	visit(f.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (w *W) pureEval(fi *fnInfo, args []Value) Value {
	fr := &frame{fi: fi, caller: w.cur, regs: make([]Value, fi.nregs)}
	copy(fr.regs, args)
	fr.block = fi.fn.Blocks[0]
	w.cur = fr
	w.depth++
	if w.depth > 200 {
		panic(specAbort{})
	}
	edges := map[*ssa.BasicBlock][]edge{fi.fn.Blocks[0]: {{nil, 0, w.tb.tt}}}
	var res Value
	have := false
	w.evalBlocks(fr, topo(fi.fn), edges, nil, func(reach *Term, v Value) {
		if !have {
			res, have = v, true
			return
		}
		res = w.mergeVal(reach, v, res)
	})
	w.cur = fr.caller
	w.depth--
	if !have {
		panic(specAbort{})
	}
	return res
}
