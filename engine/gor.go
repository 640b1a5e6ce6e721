package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program under analysis are coroutines of the interpreter: one
// runs at a time. Where more than one could run, which one does is a decision of
// the path like any other, within the bounds below; beyond them the current one goes on
// and the first that can run follows it. Switches happen where goroutines start and end, at
// channel operations, sync and sync/atomic calls, calls into os, and before stores
// to variables that closures capture and to globals.

const (
	schedForks  = 2  // switches that deviate from the default order
	schedPoints = 60 // points of a path at which they can
)

type gor struct {
	cur        *frame
	depth      int
	deferOwner []*frame
	resume     chan struct{}
	ready      func() bool // nil: can run
	done       bool
	kill       bool
}

type killed struct{}

type lockState struct {
	w bool
	r int
}

func (w *W) goStmt(fn Value, args []Value, call *ssa.CallCommon) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if !w.logging {
		w.unsupported("go statement during initialisation")
	}
	if w.gors == nil {
		w.g = &gor{resume: make(chan struct{})}
		w.gors = []*gor{w.g}
	}
	if len(w.gors) > 256 {
		w.unsupported("more than 256 goroutines")
	}
	g := &gor{resume: make(chan struct{})}
	w.gors = append(w.gors, g)
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			g.done = true
			if g.kill {
				g.resume <- struct{}{}
				return
			}
			if r != nil {
				w.gfail = r
				w.switchTo(w.gors[0])
				return
			}
			func() {
				// choosing the next one can end the path
				defer func() {
					if r := recover(); r != nil {
						w.gfail = r
						w.switchTo(w.gors[0])
					}
				}()
				n := w.pick()
				if n == nil {
					w.gfail = pathStop{"limit", "all goroutines are asleep"}
					n = w.gors[0]
				}
				w.switchTo(n)
			}()
		}()
		if g.kill {
			panic(killed{})
		}
		if b, ok := fn.(*ssa.Builtin); ok {
			w.builtin(b, args, call)
		} else {
			w.call(fn, args)
		}
	}()
	w.preempt()
}

// switchTo hands the interpreter to g; the caller waits, unless it has ended.
func (w *W) switchTo(g *gor) {
	me := w.g
	if g == me {
		return
	}
	me.cur, me.depth, me.deferOwner = w.cur, w.depth, w.deferOwner
	w.g = g
	w.cur, w.depth, w.deferOwner = g.cur, g.depth, g.deferOwner
	g.resume <- struct{}{}
	if me.done {
		return
	}
	<-me.resume
	if me.kill {
		panic(killed{})
	}
	if me == w.gors[0] && w.gfail != nil {
		r := w.gfail
		w.gfail = nil
		panic(r)
	}
}

// pick chooses a goroutine that can run, preferring the current one.
func (w *W) pick() *gor {
	var can []*gor
	start := 0
	for i, g := range w.gors {
		if g == w.g {
			start = i
		}
	}
	for k := range w.gors {
		g := w.gors[(start+k)%len(w.gors)]
		if !g.done && (g.ready == nil || g.ready()) {
			can = append(can, g)
		}
	}
	if len(can) == 0 {
		return nil
	}
	k := 0
	if len(can) > 1 && w.schedN < schedForks && w.schedP < schedPoints && w.spec == 0 {
		w.schedP++
		if k = w.choose(len(can)); k != 0 {
			w.schedN++
		}
	}
	return can[k]
}

// preempt lets another goroutine go on here.
func (w *W) preempt() {
	if len(w.gors) < 2 || w.spec > 0 {
		return
	}
	if w.schedN < schedForks && w.schedP < schedPoints {
		w.switchTo(w.pick())
	}
}

// await blocks until ready holds.
func (w *W) await(ready func() bool, what string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.gors == nil {
		if !ready() {
			panic(pathStop{"limit", "waits forever: " + what + w.where()})
		}
		return
	}
	w.preempt()
	for !ready() {
		w.g.ready = ready
		g := w.pick()
		if g == nil {
			w.g.ready = nil
			panic(pathStop{"limit", "all goroutines are asleep: " + what + w.where()})
		}
		w.switchTo(g)
		w.g.ready = nil
	}
}

// endGors ends what still runs when the path ends.
func (w *W) endGors() {
	for i, g := range w.gors {
		if i == 0 || g.done {
			continue
		}
		g.kill = true
		w.cur, w.depth, w.deferOwner = g.cur, g.depth, g.deferOwner
		g.resume <- struct{}{}
		<-g.resume
	}
	w.gors, w.g, w.gfail = nil, nil, nil
}

func (c *Chan) canSend() bool {
	return c.closed || len(c.buf) < c.cap || len(c.buf) < c.waiting
}

// touch records the state of a channel, which may outlive the path.
func (w *W) touch(c *Chan) {
	if w.logging {
		old := *c
		old.buf = append([]Value{}, c.buf...)
		w.undo = append(w.undo, undoRec{f: func() { *c = old }})
	}
}

func (w *W) chanSend(c *Chan, v Value) {
	if c == nil {
		w.await(func() bool { return false }, "send on nil channel")
	}
	if c.closed {
		panic(targetPanic{Iface{w.sh.rtErrType, cstr("send on closed channel")}, w.where()})
	}
	w.touch(c)
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.sent++
		if w.gors != nil {
			w.preempt()
		}
		return
	}
	if c.cap > 0 {
		w.await(func() bool { return c.closed || len(c.buf) < c.cap }, "send")
		if c.closed {
			panic(targetPanic{Iface{w.sh.rtErrType, cstr("send on closed channel")}, w.where()})
		}
		c.buf = append(c.buf, v)
		c.sent++
		return
	}
	// unbuffered: done when it has been received
	c.buf = append(c.buf, v)
	c.sent++
	n := c.sent
	w.await(func() bool { return c.received >= n }, "send")
}

func (w *W) chanRecv(c *Chan, elem types.Type) (Value, bool) {
	if c == nil {
		w.await(func() bool { return false }, "receive from nil channel")
	}
	w.touch(c)
	c.waiting++
	w.await(func() bool { return len(c.buf) > 0 || c.closed }, "receive")
	c.waiting--
	if len(c.buf) == 0 {
		return w.zero(elem), false
	}
	v := c.buf[0]
	c.buf = c.buf[1:]
	c.received++
	return v, true
}

func (w *W) selectStmt(fr *frame, c *cins, in *ssa.Select) Value {
	if w.spec > 0 {
		panic(specAbort{})
	}
	type st struct {
		ch   *Chan
		send bool
		v    Value
	}
	sts := make([]st, len(in.States))
	for i, s := range in.States {
		ch, _ := fr.get(w, &c.ops[2*i]).(*Chan)
		sts[i] = st{ch: ch, send: s.Dir == types.SendOnly, v: fr.get(w, &c.ops[2*i+1])}
	}
	can := func() (out []int) {
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.send && s.ch.canSend() || !s.send && (len(s.ch.buf) > 0 || s.ch.closed) {
				out = append(out, i)
			}
		}
		return
	}
	if w.gors != nil {
		w.preempt()
	}
	k := -1
	if r := can(); len(r) > 0 {
		k = r[w.choose(len(r))]
	} else if in.Blocking {
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.waiting++
			}
		}
		w.await(func() bool { return len(can()) > 0 }, "select")
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.waiting--
			}
		}
		r := can()
		k = r[w.choose(len(r))]
	}
	out := Tuple{w.intV(k), w.tb.ff}
	for i, s := range in.States {
		if s.Dir == types.SendOnly {
			if i == k {
				w.chanSend(sts[i].ch, sts[i].v)
			}
			continue
		}
		el := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == k {
			v, ok := w.chanRecv(sts[i].ch, el)
			out[1] = w.boolV(ok)
			out = append(out, v)
		} else {
			out = append(out, w.zero(el))
		}
	}
	return out
}

func (w *W) lock(p *Value) *lockState {
	if w.p.locks == nil {
		w.p.locks = map[*Value]*lockState{}
	}
	l := w.p.locks[p]
	if l == nil {
		l = &lockState{}
		w.p.locks[p] = l
	}
	return l
}

// wgCount is the counter of a WaitGroup.
func (w *W) wgCount(p *Value) *int64 {
	if w.p.wgs == nil {
		w.p.wgs = map[*Value]*int64{}
	}
	n := w.p.wgs[p]
	if n == nil {
		n = new(int64)
		w.p.wgs[p] = n
	}
	return n
}

type condState struct{ waiting, woken int }

func (w *W) condOf(p *Value) *condState {
	if w.p.conds == nil {
		w.p.conds = map[*Value]*condState{}
	}
	if w.p.conds[p] == nil {
		w.p.conds[p] = &condState{}
	}
	return w.p.conds[p]
}

var anyType = types.NewInterfaceType(nil, nil)

func syncIntrinsics(T map[string]intrinsic) {
	nop := func(w *W, a []Value) Value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer"} {
		T[n] = always(nop)
	}
	fatal := func(w *W, msg string) { panic(pathStop{"limit", "fatal error: " + msg + w.where()}) }
	impure := func(f func(w *W, a []Value) Value) intrinsic {
		return always(func(w *W, a []Value) Value {
			if w.spec > 0 {
				panic(specAbort{})
			}
			return f(w, a)
		})
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		T["(*sync."+t+").Lock"] = impure(func(w *W, a []Value) Value {
			l := w.lock(w.ptr(a[0]))
			w.await(func() bool { return !l.w && l.r == 0 }, "Lock")
			l.w = true
			return nil
		})
		T["(*sync."+t+").TryLock"] = impure(func(w *W, a []Value) Value {
			l := w.lock(w.ptr(a[0]))
			if l.w || l.r > 0 {
				return w.tb.ff
			}
			l.w = true
			return w.tb.tt
		})
		T["(*sync."+t+").Unlock"] = impure(func(w *W, a []Value) Value {
			l := w.lock(w.ptr(a[0]))
			if !l.w {
				fatal(w, "unlock of unlocked mutex")
			}
			l.w = false
			w.preempt()
			return nil
		})
	}
	T["(*sync.RWMutex).RLock"] = impure(func(w *W, a []Value) Value {
		l := w.lock(w.ptr(a[0]))
		w.await(func() bool { return !l.w }, "RLock")
		l.r++
		return nil
	})
	T["(*sync.RWMutex).RUnlock"] = impure(func(w *W, a []Value) Value {
		l := w.lock(w.ptr(a[0]))
		if l.r == 0 {
			fatal(w, "unlock of unlocked mutex")
		}
		l.r--
		w.preempt()
		return nil
	})
	T["(*sync.WaitGroup).Add"] = impure(func(w *W, a []Value) Value {
		n := w.wgCount(w.ptr(a[0]))
		*n += sext(w.concretize(a[1].(*Term)), 64)
		if *n < 0 {
			w.rtPanic("negative WaitGroup counter")
		}
		return nil
	})
	T["(*sync.WaitGroup).Done"] = impure(func(w *W, a []Value) Value {
		n := w.wgCount(w.ptr(a[0]))
		*n--
		if *n < 0 {
			w.rtPanic("negative WaitGroup counter")
		}
		w.preempt()
		return nil
	})
	T["(*sync.WaitGroup).Wait"] = impure(func(w *W, a []Value) Value {
		n := w.wgCount(w.ptr(a[0]))
		w.await(func() bool { return *n == 0 }, "WaitGroup.Wait")
		return nil
	})
	T["(*sync.WaitGroup).Go"] = impure(func(w *W, a []Value) Value {
		n := w.wgCount(w.ptr(a[0]))
		*n++
		w.goStmt(&BoundNative{f: func(w *W, _ []Value) Value {
			w.call(a[1], nil)
			*n--
			return nil
		}}, nil, nil)
		return nil
	})
	T["runtime.Gosched"] = impure(func(w *W, a []Value) Value { w.preempt(); return nil })
	T["time.Sleep"] = T["runtime.Gosched"]
	T["(*sync.Pool).Put"] = impure(func(w *W, a []Value) Value {
		if w.p.pools == nil {
			w.p.pools = map[*Value][]Value{}
		}
		p := w.ptr(a[0])
		w.p.pools[p] = append(w.p.pools[p], a[1])
		return nil
	})
	T["(*sync.Pool).Get"] = impure(func(w *W, a []Value) Value {
		p := w.ptr(a[0])
		if l := w.p.pools[p]; len(l) > 0 {
			w.p.pools[p] = l[:len(l)-1]
			return l[len(l)-1]
		}
		s := (*p).(StructV)
		nf := s[len(s)-1]
		if _, ok := nf.(NilFunc); ok {
			return Iface{}
		}
		return w.call(nf, nil)
	})
	// sync.Cond: a waiting goroutine goes on once it has been woken
	T["(*sync.Cond).Wait"] = impure(func(w *W, a []Value) Value {
		p := w.ptr(a[0])
		l := (*p).(StructV)[1].(Iface)
		k := w.condOf(p)
		k.waiting++
		t := k.waiting
		w.callMethod(l, "Unlock")
		w.await(func() bool { return k.woken >= t }, "Cond.Wait")
		w.callMethod(l, "Lock")
		return nil
	})
	T["(*sync.Cond).Signal"] = impure(func(w *W, a []Value) Value {
		k := w.condOf(w.ptr(a[0]))
		k.woken = min(k.woken+1, k.waiting)
		return nil
	})
	T["(*sync.Cond).Broadcast"] = impure(func(w *W, a []Value) Value {
		k := w.condOf(w.ptr(a[0]))
		k.woken = k.waiting
		return nil
	})
	syncMap := func(name string, f func(w *W, m *Map, a []Value) Value) {
		T["(*sync.Map)."+name] = impure(func(w *W, a []Value) Value {
			p := w.ptr(a[0])
			m := w.syncMaps[p]
			if m == nil {
				m = &Map{kt: anyType, vt: anyType, idx: map[string]int{}}
				if w.syncMaps == nil {
					w.syncMaps = map[*Value]*Map{}
				}
				w.syncMaps[p] = m
				if w.logging {
					w.undo = append(w.undo, undoRec{f: func() { delete(w.syncMaps, p) }})
				}
			}
			w.preempt()
			return f(w, m, a[1:])
		})
	}
	found := func(w *W, m *Map, k Value) Value {
		if e := w.mapFind(m, k); e != nil {
			return Tuple{e.v, w.tb.tt}
		}
		return Tuple{Iface{}, w.tb.ff}
	}
	syncMap("Load", func(w *W, m *Map, a []Value) Value { return found(w, m, a[0]) })
	syncMap("Store", func(w *W, m *Map, a []Value) Value { w.mapSet(m, a[0], a[1]); return nil })
	syncMap("LoadOrStore", func(w *W, m *Map, a []Value) Value {
		if e := w.mapFind(m, a[0]); e != nil {
			return Tuple{e.v, w.tb.tt}
		}
		w.mapSet(m, a[0], a[1])
		return Tuple{a[1], w.tb.ff}
	})
	syncMap("LoadAndDelete", func(w *W, m *Map, a []Value) Value {
		r := found(w, m, a[0])
		w.mapDelete(m, a[0])
		return r
	})
	syncMap("Delete", func(w *W, m *Map, a []Value) Value { w.mapDelete(m, a[0]); return nil })
	syncMap("Swap", func(w *W, m *Map, a []Value) Value {
		r := found(w, m, a[0])
		w.mapSet(m, a[0], a[1])
		return r
	})
	syncMap("Clear", func(w *W, m *Map, a []Value) Value {
		for _, e := range append([]*mapEntry{}, m.entries...) {
			if !e.dead {
				w.mapDelete(m, e.k)
			}
		}
		return nil
	})
	syncMap("Range", func(w *W, m *Map, a []Value) Value {
		for _, e := range w.mapOrder(m) {
			if e.dead {
				continue
			}
			if !w.branch(w.call(a[0], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	})
	av := func(w *W, a []Value) *Value { return &(*w.ptr(a[0])).(StructV)[0] }
	T["(*sync/atomic.Value).Load"] = impure(func(w *W, a []Value) Value { return *av(w, a) })
	T["(*sync/atomic.Value).Store"] = impure(func(w *W, a []Value) Value {
		if a[1].(Iface).t == nil {
			panic(targetPanic{Iface{w.sh.rtErrType, cstr("sync/atomic: store of nil value into Value")}, w.where()})
		}
		w.store1(av(w, a), a[1])
		return nil
	})
	T["(*sync/atomic.Value).Swap"] = impure(func(w *W, a []Value) Value {
		old := *av(w, a)
		w.store1(av(w, a), a[1])
		return old
	})
	T["(*sync/atomic.Value).CompareAndSwap"] = impure(func(w *W, a []Value) Value {
		if w.branch(w.equal(*av(w, a), a[1])) {
			w.store1(av(w, a), a[2])
			return w.tb.tt
		}
		return w.tb.ff
	})
	T["maps.clone"] = impure(func(w *W, a []Value) Value {
		i := a[0].(Iface)
		m, _ := i.v.(*Map)
		if m == nil {
			return i
		}
		n := &Map{kt: m.kt, vt: m.vt, idx: map[string]int{}}
		for _, e := range m.entries {
			if !e.dead {
				w.mapSet(n, e.k, copyVal(e.v))
			}
		}
		return Iface{i.t, n}
	})
	// a clock that goes on a millisecond with every look
	T["time.now"] = impure(func(w *W, a []Value) Value {
		w.clock++
		return Tuple{w.tb.int64T(1_700_000_000 + w.clock/1000), w.tb.bvT(32, uint64(w.clock%1000*1_000_000)), w.tb.int64T(1 + w.clock*1_000_000)}
	})
	T["time.runtimeNow"] = T["time.now"]
	T["time.runtimeNano"] = impure(func(w *W, a []Value) Value { w.clock++; return w.tb.int64T(1 + w.clock*1_000_000) })
	// timers never fire
	T["time.newTimer"] = impure(func(w *W, a []Value) Value {
		p := new(Value)
		t := w.zero(w.sh.namedType("time", "Timer")).(StructV)
		t[1] = w.tb.tt // initTimer
		*p = t
		return p
	})
	T["time.stopTimer"] = always(func(w *W, a []Value) Value { return w.tb.tt })
	T["time.resetTimer"] = T["time.stopTimer"]
	T["time.runtimeIsBubbled"] = always(func(w *W, a []Value) Value { return w.tb.ff })
}
