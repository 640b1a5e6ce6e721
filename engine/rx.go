package main

import (
	"regexp"
	"regexp/syntax"
	"unicode"
)

// rxObj is a compiled regular expression: the program comes from the real
// regexp/syntax compiler, only its execution over symbolic text is modelled.
type rxObj struct {
	expr    string
	re      *regexp.Regexp
	prog    *syntax.Prog
	ncap    int
	longest bool
}

func compileRx(expr string) (*rxObj, error) {
	re, err := regexp.Compile(expr)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &rxObj{expr: expr, re: re, prog: prog, ncap: 2 * (re.NumSubexp() + 1)}, nil
}

type rxAlt struct {
	cond *Term
	caps []int
}

func (w *W) wordAt(s *Str, i int) *Term {
	tb := w.tb
	if i < 0 || i >= w.slen(s) {
		return tb.ff
	}
	c := w.sat(s, i)
	rg := func(lo, hi byte) *Term {
		return tb.and(tb.bin(opULe, tb.byteT(lo), c), tb.bin(opULe, c, tb.byteT(hi)))
	}
	return tb.or(tb.or(rg('a', 'z'), rg('A', 'Z')), tb.or(rg('0', '9'), tb.eq(c, tb.byteT('_'))))
}

func (w *W) emptyCond(s *Str, pos int, op syntax.EmptyOp) *Term {
	tb := w.tb
	n := w.slen(s)
	r := tb.tt
	nl := tb.byteT('\n')
	if op&syntax.EmptyBeginText != 0 {
		r = tb.and(r, tb.boolT(pos == 0))
	}
	if op&syntax.EmptyEndText != 0 {
		r = tb.and(r, tb.boolT(pos == n))
	}
	if op&syntax.EmptyBeginLine != 0 && pos > 0 {
		r = tb.and(r, tb.eq(w.sat(s, pos-1), nl))
	}
	if op&syntax.EmptyEndLine != 0 && pos < n {
		r = tb.and(r, tb.eq(w.sat(s, pos), nl))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		eq := tb.eq(w.wordAt(s, pos-1), w.wordAt(s, pos))
		if op&syntax.EmptyWordBoundary != 0 {
			r = tb.and(r, tb.not(eq))
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			r = tb.and(r, eq)
		}
	}
	return r
}

func (w *W) rxRune(s *Str, pos int) (*Term, int) {
	b := w.sat(s, pos)
	if w.tb.bin(opULt, b, w.tb.byteT(0x80)) == w.tb.tt {
		return w.tb.resize(b, 32, false), 1
	}
	return w.decodeRune(s, pos)
}

func (w *W) instCond(in *syntax.Inst, r *Term) *Term {
	tb := w.tb
	k := func(x rune) *Term { return tb.bvT(32, uint64(uint32(x))) }
	switch in.Op {
	case syntax.InstRuneAny:
		return tb.tt
	case syntax.InstRuneAnyNotNL:
		return tb.not(tb.eq(r, k('\n')))
	}
	if len(in.Rune) == 1 {
		r0 := in.Rune[0]
		c := tb.eq(r, k(r0))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
				c = tb.or(c, tb.eq(r, k(r1)))
			}
		}
		return c
	}
	c := tb.ff
	for i := 0; i+1 < len(in.Rune); i += 2 {
		lo, hi := in.Rune[i], in.Rune[i+1]
		if lo == hi {
			c = tb.or(c, tb.eq(r, k(lo)))
		} else {
			c = tb.or(c, tb.and(tb.bin(opULe, k(lo), r), tb.bin(opULe, r, k(hi))))
		}
	}
	return c
}

type rxState struct {
	pc   uint32
	pos  int
	cond *Term
}

// rxAlts lists the matches starting at start, in leftmost-first priority order.
// States in seen lead to nothing that counts: they were visited before, with a
// higher priority or from a start without a match.
func (w *W) rxAlts(x *rxObj, s *Str, start int, seen map[rxState]bool) []rxAlt {
	tb := w.tb
	var out []rxAlt
	n := w.slen(s)
	work := 0
	type key struct {
		pc  uint32
		pos int
	}
	active := map[key]bool{}
	done := map[*Term]bool{} // conditions under which an earlier alternative matches, so that later ones do not count
	var visit func(pc uint32, pos int, cond *Term, caps []int)
	visit = func(pc uint32, pos int, cond *Term, caps []int) {
		work++
		if work > 200000 || len(out) > 3000 {
			panic(pathStop{"unsupported", "regexp too large for symbolic matching: " + x.expr})
		}
		in := &x.prog.Inst[pc]
		kk := key{pc, pos}
		if done[tb.tt] || done[cond] || active[kk] {
			return
		}
		if seen[rxState{pc, pos, cond}] {
			return
		}
		seen[rxState{pc, pos, cond}] = true
		active[kk] = true
		defer delete(active, kk)
		switch in.Op {
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(in.Out, pos, cond, caps)
			visit(in.Arg, pos, cond, caps)
		case syntax.InstNop:
			visit(in.Out, pos, cond, caps)
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				c2 := append([]int{}, caps...)
				c2[in.Arg] = pos
				caps = c2
			}
			visit(in.Out, pos, cond, caps)
		case syntax.InstEmptyWidth:
			c := tb.and(cond, w.emptyCond(s, pos, syntax.EmptyOp(in.Arg)))
			if c != tb.ff {
				visit(in.Out, pos, c, caps)
			}
		case syntax.InstMatch:
			c2 := append([]int{}, caps...)
			c2[1] = pos
			out = append(out, rxAlt{cond, c2})
			if !x.longest {
				done[cond] = true
			}
		default:
			if pos >= n {
				return
			}
			r, k := w.rxRune(s, pos)
			c := tb.and(cond, w.instCond(in, r))
			if c != tb.ff {
				visit(in.Out, pos+k, c, caps)
			}
		}
	}
	caps := make([]int, x.ncap)
	for i := range caps {
		caps[i] = -1
	}
	caps[0] = start
	visit(uint32(x.prog.Start), start, tb.tt, caps)
	return out
}

// rxExec returns the capture positions of the leftmost match at or after pos.
func (w *W) rxExec(x *rxObj, s *Str, pos int) []int {
	if s.conc() && pos == 0 {
		m := x.re.FindStringSubmatchIndex(s.s)
		return m
	}
	n := w.slen(s)
	seen := map[rxState]bool{}
	for st := pos; st <= n; {
		alts := w.rxAlts(x, s, st, seen)
		any := w.tb.ff
		for _, a := range alts {
			any = w.tb.or(any, a.cond)
		}
		if w.branch(any) {
			if x.longest {
				best := []int(nil)
				for e := n; e >= st && best == nil; e-- {
					for _, a := range alts {
						if a.caps[1] == e && w.branch(a.cond) {
							best = a.caps
							break
						}
					}
				}
				return best
			}
			for i, a := range alts {
				if i == len(alts)-1 || w.branch(a.cond) {
					return a.caps
				}
			}
		}
		k := 1
		if st < n {
			if _, k = w.rxRune(s, st); k == 0 {
				k = 1
			}
		}
		st += k
	}
	return nil
}

func (w *W) rxMatchTerm(x *rxObj, s *Str) *Term {
	if s.conc() {
		return w.tb.boolT(x.re.MatchString(s.s))
	}
	r := w.tb.ff
	n := w.slen(s)
	seen := map[rxState]bool{}
	for st := 0; st <= n && r != w.tb.tt; {
		for _, a := range w.rxAlts(x, s, st, seen) {
			r = w.tb.or(r, a.cond)
		}
		k := 1
		if st < n {
			_, k = w.rxRune(s, st)
		}
		st += k
	}
	return r
}

func (w *W) rxAll(x *rxObj, s *Str, n int, f func(m []int)) {
	end := w.slen(s)
	if n < 0 {
		n = end + 1
	}
	for pos, i, prev := 0, 0, -1; i < n && pos <= end; {
		m := w.rxExec(x, s, pos)
		if len(m) == 0 {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			if pos < end {
				_, k := w.rxRune(s, pos)
				pos += k
			} else {
				pos = end + 1
			}
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			f(m)
			i++
		}
	}
}

// rxReplace follows regexp.(*Regexp).replaceAll.
func (w *W) rxReplace(x *rxObj, src *Str, repl func(m []int) *Str) *Str {
	last, sp := 0, 0
	out := emptyStr
	changed := false
	end := w.slen(src)
	for sp <= end {
		a := w.rxExec(x, src, sp)
		if len(a) == 0 {
			break
		}
		out = w.sconcat(out, w.ssub(src, last, a[0]))
		if a[1] > last || a[0] == 0 {
			out = w.sconcat(out, repl(a))
			changed = true
		}
		last = a[1]
		width := 0
		if sp < end {
			_, width = w.rxRune(src, sp)
		}
		if sp+width > a[1] {
			sp += width
		} else if sp+1 > a[1] {
			sp++
		} else {
			sp = a[1]
		}
	}
	if !changed {
		return src
	}
	return w.sconcat(out, w.ssub(src, last, end))
}

func (w *W) rxExpand(x *rxObj, tmpl, src *Str, m []int) *Str {
	for i := 0; i < w.slen(tmpl); i++ {
		if w.branch(w.tb.eq(w.sat(tmpl, i), w.tb.byteT('$'))) {
			t := w.goStr(tmpl)
			if src.conc() {
				return cstr(string(x.re.ExpandString(nil, t, src.s, m)))
			}
			// expand with marker text per group, then splice symbolic pieces
			out := emptyStr
			for len(t) > 0 {
				k := 0
				for k < len(t) && t[k] != '$' {
					k++
				}
				out = w.sconcat(out, cstr(t[:k]))
				t = t[k:]
				if t == "" {
					break
				}
				// one reference: find its extent by trying the real expander
				if len(t) > 1 && t[1] == '$' {
					out = w.sconcat(out, cstr("$"))
					t = t[2:]
					continue
				}
				name, num, rest, ok := rxExtract(t)
				if !ok {
					out = w.sconcat(out, cstr("$"))
					t = t[1:]
					continue
				}
				t = rest
				if num >= 0 {
					if 2*num+1 < len(m) && m[2*num] >= 0 {
						out = w.sconcat(out, w.ssub(src, m[2*num], m[2*num+1]))
					}
				} else {
					for i, nm := range x.re.SubexpNames() {
						if nm == name && 2*i+1 < len(m) && m[2*i] >= 0 {
							out = w.sconcat(out, w.ssub(src, m[2*i], m[2*i+1]))
							break
						}
					}
				}
			}
			return out
		}
	}
	return tmpl
}

func rxExtract(str string) (name string, num int, rest string, ok bool) {
	str = str[1:]
	if str == "" {
		return
	}
	brace := false
	if str[0] == '{' {
		brace = true
		str = str[1:]
	}
	i := 0
	for i < len(str) {
		c := str[i]
		if c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			i++
			continue
		}
		break
	}
	if i == 0 {
		return
	}
	name = str[:i]
	if brace {
		if i >= len(str) || str[i] != '}' {
			return
		}
		i++
	}
	num = 0
	for j := 0; j < len(name); j++ {
		if name[j] < '0' || '9' < name[j] || num >= 1e8 {
			num = -1
			break
		}
		num = num*10 + int(name[j]) - '0'
	}
	if name[0] == '0' && len(name) > 1 {
		num = -1
	}
	rest = str[i:]
	ok = true
	return
}
