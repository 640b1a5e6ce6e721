package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	dBranch = iota
	dChoose
	dConc // branch of concretize; val is the tried value
	dWit  // witness value
)

// Dec is one decision on a path; dir is the branch direction or the chosen alternative.
type Dec struct {
	kind   uint8
	forced bool
	dir    int32
	val    uint64 // witness value used by concretize
}

type workItem struct {
	prefix []Dec
	model  map[string]uint64
}

type input struct {
	kind  string // int, byte, bool, float, choose, len
	label string
	t     *Term
	v     int64
}

type pathState struct {
	pc     []*Term
	known  map[*Term]bool
	decs   []Dec
	prefix []Dec
	inputs []input
	names  map[string]int
	covers map[string]bool
	notes  map[string]bool
	failed bool
	locks  map[*Value]*lockState
	wgs    map[*Value]*int64
	pools  map[*Value][]Value
	conds  map[*Value]*condState
}

type Violation struct {
	Prop    string
	Harness string
	Kind    string // assert, panic, hang, fail
	Msg     string
	Inputs  []string // JSON scalars in creation order
	Labels  []string
	Where   string
	Native  string
	Sched   bool // depends on the order in which goroutines run
	model   map[string]uint64
}

type KnownHit struct {
	ID     string
	Inputs []string
	Labels []string
}

// Explorer explores all paths of one harness function.
type Explorer struct {
	sh          *Shared
	harness     string
	fn          *ssa.Function
	mu          sync.Mutex
	cond        *sync.Cond
	stack       []workItem
	busy        int
	stop        bool
	deadline    time.Time
	maxPaths    int64
	onViolation func(v *Violation) (stop bool)
	stopOnFirst bool

	paths       atomic.Int64
	infeasible  atomic.Int64
	limitHits   atomic.Int64
	asserts     atomic.Int64
	assertQ     atomic.Int64
	unsup       map[string]int
	inconc      map[string]int
	covers      map[string]int64
	notes       map[string]int64
	viol        []*Violation
	violKeys    map[string]int
	known       map[string]*KnownHit
	maxDecs     int
	timedOut    bool
	branches    atomic.Int64
	okPaths     int
	keepSamples int
	rng         *rand.Rand
	wit         []sample
}

func newExplorer(sh *Shared, name string, fn *ssa.Function) *Explorer {
	e := &Explorer{sh: sh, harness: name, fn: fn, unsup: map[string]int{}, inconc: map[string]int{}, covers: map[string]int64{}, notes: map[string]int64{}, violKeys: map[string]int{}, known: map[string]*KnownHit{}}
	e.cond = sync.NewCond(&e.mu)
	e.stack = []workItem{{}}
	return e
}

func (e *Explorer) push(it workItem) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return workItem{}, false
		}
		if len(e.stack) > 0 {
			if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.paths.Load() >= e.maxPaths) {
				e.timedOut = true
				e.stop = true
				e.cond.Broadcast()
				return workItem{}, false
			}
			it := e.stack[len(e.stack)-1]
			e.stack = e.stack[:len(e.stack)-1]
			e.busy++
			return it, true
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) halt() {
	e.mu.Lock()
	e.stop = true
	e.mu.Unlock()
	e.cond.Broadcast()
}

// Run explores with the given workers.
func (e *Explorer) Run(ws []*W) {
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for {
				it, ok := e.pop()
				if !ok {
					return
				}
				w.runPath(e, it)
				e.done()
			}
		}(w)
	}
	wg.Wait()
}

func (w *W) runPath(e *Explorer, it workItem) {
	w.ex = e
	w.p = &pathState{known: map[*Term]bool{}, prefix: it.prefix, names: map[string]int{}, covers: map[string]bool{}, notes: map[string]bool{}}
	m := map[string]uint64{}
	for k, v := range it.model {
		m[k] = v
	}
	w.tb.setModel(m)
	w.steps, w.depth, w.cur, w.spec = 0, 0, nil, 0
	w.stepMax = e.sh.stepMax
	w.mapMode = 0
	w.exactFmt = false
	w.exitExpected = false
	w.deferOwner = nil
	w.vfs = newVFS()
	w.natives = map[*Value]any{}
	w.clock, w.schedN, w.schedP = 0, 0, 0
	w.logging = true
	end := "ok"
	var msg string
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathStop:
				end, msg = x.kind, x.msg
			case targetPanic:
				end, msg = "panic", w.panicText(x.v)+x.where
			case specAbort:
				end, msg = "unsupported", "speculation escaped"
			default:
				buf := make([]byte, 1<<13)
				n := runtime.Stack(buf, false)
				end, msg = "internal", fmt.Sprintf("%v%s\n%s", r, w.where(), buf[:n])
			}
		}()
		w.callFn(e.fn, nil, nil)
	}()
	w.endGors()
	if end == "panic" || end == "limit" {
		w.spec = 0
		kind := "panic"
		if end == "limit" {
			kind = "hang"
			e.limitHits.Add(1)
		}
		w.report(kind, msg, w.tb.model)
	}
	w.logging = false
	w.rollback()
	w.instrCount += w.steps
	if end == "infeasible" {
		e.infeasible.Add(1)
		return
	}
	e.paths.Add(1)
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(w.p.decs) > e.maxDecs {
		e.maxDecs = len(w.p.decs)
	}
	for c := range w.p.covers {
		e.covers[c]++
	}
	for c := range w.p.notes {
		e.notes[c]++
	}
	if end == "unsupported" || end == "internal" {
		e.unsup[end+": "+msg]++
	}
	e.branches.Add(int64(len(w.p.decs) - len(it.prefix)))
	if end == "ok" && !w.p.failed {
		// reservoir sample of path witnesses for native replay
		e.okPaths++
		k := e.okPaths
		i := len(e.wit)
		if i >= e.keepSamples {
			i = e.rng.Intn(k)
		}
		if i < e.keepSamples {
			in, _ := w.inputs(w.tb.model)
			s := sample{h: e.harness, in: in, covers: sortedKeys(w.p.covers)}
			if i == len(e.wit) {
				e.wit = append(e.wit, s)
			} else {
				e.wit[i] = s
			}
		}
	}
}

func (w *W) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(*Str); ok {
			if s.conc() {
				return s.s
			}
			return "panic(<string>)"
		}
		if i.t != nil {
			return "panic(" + i.t.String() + ")"
		}
	}
	return "panic"
}

// inputs renders the harness inputs under a model.
func (w *W) inputs(m map[string]uint64) (vals, labeled []string) {
	old := w.tb.model
	w.tb.setModel(m)
	for _, in := range w.p.inputs {
		var s string
		if in.t == nil {
			s = fmt.Sprint(in.v)
		} else {
			v := w.tb.eval(in.t)
			switch in.kind {
			case "bool", "byte":
				s = fmt.Sprint(v)
			case "float":
				s = fmt.Sprintf("\"0x%016x\"", v)
			default:
				s = fmt.Sprint(sext(v, in.t.sort.W))
			}
		}
		vals = append(vals, s)
		labeled = append(labeled, in.label+"="+s)
	}
	w.tb.setModel(old)
	return
}

func (w *W) report(kind, msg string, m map[string]uint64) {
	e := w.ex
	vals, labels := w.inputs(m)
	v := &Violation{Harness: e.harness, Kind: kind, Msg: msg, Inputs: vals, Labels: labels, Where: w.where(), Sched: w.schedP > 0}
	key := kind + "|" + msg
	if i := strings.Index(key, " [in "); i >= 0 {
		key = key[:i]
	}
	e.mu.Lock()
	n := e.violKeys[key]
	e.violKeys[key] = n + 1
	total := len(e.viol)
	if n < 4 && total < 60 {
		e.viol = append(e.viol, v)
	}
	stop := e.stopOnFirst
	e.mu.Unlock()
	if e.onViolation != nil && n < 4 && total < 60 {
		if e.onViolation(v) {
			stop = true
		}
	}
	if stop {
		e.halt()
	}
}

func (w *W) inconclusive(msg string) {
	e := w.ex
	e.mu.Lock()
	e.inconc[msg]++
	e.mu.Unlock()
}

func (w *W) addPC(c *Term) {
	if c == w.tb.tt {
		return
	}
	w.p.pc = append(w.p.pc, c)
	w.learn(c)
}

func (w *W) learn(c *Term) {
	w.p.known[c] = true
	if c.op == opAnd {
		w.learn(c.a)
		w.learn(c.b)
	} else if c.op == opNot && c.a.op == opOr {
		w.learn(w.tb.not(c.a.a))
		w.learn(w.tb.not(c.a.b))
	}
}

func overlay(base, m map[string]uint64) map[string]uint64 {
	out := make(map[string]uint64, len(base)+len(m))
	for k, v := range base {
		out[k] = v
	}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// branch decides a condition, exploring both sides where feasible.
func (w *W) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if !w.logging {
		w.unsupported("symbolic branch during initialisation")
	}
	tb, p := w.tb, w.p
	if p.known[c] {
		return true
	}
	nc := tb.not(c)
	if p.known[nc] {
		return false
	}
	return w.decide(c, nc, dBranch, 0)
}

func (w *W) decide(c, nc *Term, kind uint8, val uint64) bool {
	tb, p := w.tb, w.p
	i := len(p.decs)
	if i < len(p.prefix) {
		d := p.prefix[i]
		if d.kind != kind {
			panic(pathStop{"internal", "replay diverged" + w.where()})
		}
		p.decs = append(p.decs, d)
		take := c
		if d.dir == 0 {
			take = nc
		}
		if d.forced {
			w.learn(take)
		} else {
			w.addPC(take)
		}
		return d.dir != 0
	}
	w.p.checkLen(w)
	v := tb.eval(c) != 0
	take, other := c, nc
	if !v {
		take, other = nc, c
	}
	d := Dec{kind: kind, val: val}
	if v {
		d.dir = 1
	}
	r, m := w.sol.check(p.pc, other)
	switch r {
	case resUnsat:
		d.forced = true
		if profOn {
			w.prof("forced")
		}
		p.decs = append(p.decs, d)
		w.learn(take)
		return v
	case resSat:
		nd := d
		nd.dir ^= 1
		pre := make([]Dec, i+1)
		copy(pre, p.decs)
		pre[i] = nd
		w.ex.push(workItem{pre, overlay(tb.model, m)})
		if profOn {
			w.prof("fork")
		}
	default:
		w.inconclusive("solver returned unknown on a branch")
	}
	p.decs = append(p.decs, d)
	w.addPC(take)
	return v
}

func (p *pathState) checkLen(w *W) {
	if len(p.decs) > 20000 {
		panic(pathStop{"limit", "decision limit" + w.where()})
	}
}

// concretize forks over the feasible values of t.
func (w *W) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	tb, p := w.tb, w.p
	if t.op == opIte && t.b.isConst() && t.c.isConst() {
		if w.branch(t.a) {
			return t.b.val
		}
		return t.c.val
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(pathStop{"limit", "too many values" + w.where()})
		}
		var v uint64
		i := len(p.decs)
		replay := i < len(p.prefix)
		if replay {
			v = p.prefix[i].val
		} else {
			v = tb.eval(t)
		}
		c := tb.eq(t, tb.konst(t.sort, v))
		if !replay && (c == tb.tt || p.known[c]) {
			p.decs = append(p.decs, Dec{kind: dConc, forced: true, dir: 1, val: v})
			return v
		}
		if w.decide(c, tb.not(c), dConc, v) {
			return v
		}
	}
}

// choose forks over n alternatives without the solver.
func (w *W) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	p := w.p
	i := len(p.decs)
	if i < len(p.prefix) {
		d := p.prefix[i]
		if d.kind != dChoose {
			panic(pathStop{"internal", "replay diverged (choose)" + w.where()})
		}
		p.decs = append(p.decs, d)
		return int(d.dir)
	}
	for k := n - 1; k >= 1; k-- {
		pre := make([]Dec, i+1)
		copy(pre, p.decs)
		pre[i] = Dec{kind: dChoose, dir: int32(k)}
		w.ex.push(workItem{pre, overlay(w.tb.model, nil)})
	}
	p.decs = append(p.decs, Dec{kind: dChoose})
	return 0
}

// assume restricts the path; no decision is recorded (assumptions are deterministic).
func (w *W) assume(c *Term) {
	if c == w.tb.tt || w.p.known[c] {
		return
	}
	if c == w.tb.ff || w.p.known[w.tb.not(c)] {
		panic(pathStop{"infeasible", ""})
	}
	if w.tb.eval(c) != 0 {
		w.addPC(c)
		return
	}
	r, m := w.sol.check(w.p.pc, c)
	switch r {
	case resUnsat:
		panic(pathStop{"infeasible", ""})
	case resUnknown:
		w.inconclusive("solver returned unknown on an assumption")
		panic(pathStop{"infeasible", ""})
	}
	w.tb.setModel(overlay(w.tb.model, m))
	w.addPC(c)
}

// assert checks that c holds for every value on this path.
func (w *W) assert(c *Term, msg string) {
	e := w.ex
	if len(w.p.decs) < len(w.p.prefix) {
		// already decided by the parent of this path under the same constraints
		w.addPC(c)
		return
	}
	e.asserts.Add(1)
	if c == w.tb.tt || w.p.known[c] {
		return
	}
	nc := w.tb.not(c)
	if w.tb.eval(c) == 0 {
		if debugOn {
			fmt.Printf("DEBUG assert %s false under model %v\n  cond %s\n", msg, w.tb.model, w.tb.dump(c, 6))
			for _, x := range w.p.pc {
				fmt.Println("  pc", w.tb.eval(x), w.tb.dump(x, 6))
			}
			for _, d := range w.p.decs {
				fmt.Printf("  dec %+v\n", d)
			}
		}
		w.report("assert", msg, w.tb.model)
		w.p.failed = true
		w.assume(c)
		return
	}
	e.assertQ.Add(1)
	r, m := w.sol.check(w.p.pc, nc)
	switch r {
	case resSat:
		w.report("assert", msg, overlay(w.tb.model, m))
	case resUnknown:
		w.inconclusive("solver returned unknown on an assertion: " + msg)
	}
	w.addPC(c)
}

// witness returns one value of t (exact when the path determines it), without forking.
func (w *W) witness(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	p := w.p
	p.notes["a symbolic number was rendered as text with one witness value"] = true
	if i := len(p.decs); i < len(p.prefix) {
		d := p.prefix[i]
		if d.kind != dWit {
			panic(pathStop{"internal", "replay diverged (witness)" + w.where()})
		}
		p.decs = append(p.decs, d)
		return d.val
	}
	v := w.tb.eval(t)
	p.decs = append(p.decs, Dec{kind: dWit, val: v})
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var debugOn = os.Getenv("VDEBUG") != ""

func (tb *TB) dump(t *Term, d int) string {
	if t == nil {
		return "nil"
	}
	switch t.op {
	case opConst:
		if t.sort.K == kFP {
			return fmt.Sprint(math.Float64frombits(t.val))
		}
		return fmt.Sprint(sext(t.val, t.sort.W))
	case opVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := fmt.Sprintf("(%s#%d", opSMT[t.op], t.op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + tb.dump(x, d-1)
		}
	}
	return s + ")"
}

var profOn = os.Getenv("VPROF") != ""
var profMu sync.Mutex
var profTab = map[string]int{}

func (w *W) prof(kind string) {
	k := kind + " b" + fmt.Sprint(w.cur.block) + w.where()
	profMu.Lock()
	profTab[k]++
	profMu.Unlock()
}

func profDump() {
	ks := sortedKeys(profTab)
	sort.SliceStable(ks, func(i, j int) bool { return profTab[ks[i]] > profTab[ks[j]] })
	for i, k := range ks {
		if i < 40 {
			fmt.Printf("PROF %7d %s\n", profTab[k], k)
		}
	}
}
