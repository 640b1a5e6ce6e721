package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satRes uint8

const (
	resUnsat satRes = iota
	resSat
	resUnknown
)

type qres struct {
	r satRes
	m map[string]uint64
}

// proc is one persistent SMT process.
type proc struct {
	idx   int
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	gen   int32
	ndefs int
	buf   strings.Builder
}

// Solver is a pair of SMT processes plus a query cache.
type Solver struct {
	tb      *TB
	bin     string
	proc    [2]proc // 0: bit-vector queries, 1: queries with floating point
	cache   map[string]qres
	timeout int // ms

	queries   int64
	cacheHits int64
	fpQueries int64
	sat       int64
	unsat     int64
	unknown   int64
	dur       time.Duration
	errors    []string
}

func newSolver(tb *TB, bin string, timeoutMS int) *Solver {
	s := &Solver{tb: tb, bin: bin, cache: map[string]qres{}, timeout: timeoutMS}
	s.proc[1].idx = 1
	return s
}

func (s *Solver) start(p *proc) error {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	cmd := exec.Command(s.bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return err
	}
	if d := os.Getenv("VSMT"); d != "" {
		if f, err := os.CreateTemp(d, "q*.smt2"); err == nil {
			in = teeWriter{in, f}
		}
	}
	p.cmd, p.in, p.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	p.gen++
	p.ndefs = 0
	p.buf.Reset()
	if strings.Contains(s.bin, "cvc5") {
		p.buf.WriteString("(set-logic ALL)\n")
	} else {
		fmt.Fprintf(&p.buf, "(set-option :timeout %d)\n", s.timeout)
		if p.idx == 0 {
			p.buf.WriteString("(set-logic QF_BV)\n")
		}
	}
	return nil
}

// teeWriter copies the solver's input to a file for debugging.
type teeWriter struct {
	io.WriteCloser
	f *os.File
}

func (t teeWriter) Write(b []byte) (int, error) {
	t.f.Write(b)
	return t.WriteCloser.Write(b)
}

func (s *Solver) stop() {
	s.proc[0].stop()
	s.proc[1].stop()
}

func (s *proc) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *proc) define(t *Term) {
	if t.op == opConst || t.defd[s.idx] == s.gen {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == opConst || f.t.defd[s.idx] == s.gen {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 {
			switch f.i {
			case 0:
				ch = f.t.a
			case 1:
				ch = f.t.b
			case 2:
				ch = f.t.c
			}
			f.i++
			if ch != nil && ch.op != opConst && ch.defd[s.idx] != s.gen {
				break
			}
			ch = nil
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		x := f.t
		if x.op == opVar {
			fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", x.ref(), x.sort.smt())
			if x.ranged {
				fmt.Fprintf(&s.buf, "(assert (and (bvsle %s %s) (bvsle %s %s)))\n", constSMT(x.sort, uint64(x.lo)&mask(x.sort.W)), x.ref(), x.ref(), constSMT(x.sort, uint64(x.hi)&mask(x.sort.W)))
			}
		} else {
			fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", x.id, x.sort.smt(), x.body())
		}
		x.defd[s.idx] = s.gen
		s.ndefs++
		st = st[:len(st)-1]
	}
}

func (s *proc) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

func (s *Solver) slice(pc []*Term, extra *Term) ([]*Term, []int32) {
	vs := extra.vars
	var used = make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] || !intersects(c.vars, vs) {
				continue
			}
			used[i] = true
			out = append(out, c)
			nv := mergeVars(vs, c.vars)
			if len(nv) != len(vs) {
				changed = true
			}
			vs = nv
		}
	}
	return out, vs
}

func intersects(x, y []int32) bool {
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			i++
		case x[i] > y[j]:
			j++
		default:
			return true
		}
	}
	return false
}

// check decides pc && extra. On sat the model covers the variables of the slice.
func (s *Solver) check(pc []*Term, extra *Term) (satRes, map[string]uint64) {
	if extra == s.tb.ff {
		return resUnsat, nil
	}
	cs, vs := s.slice(pc, extra)
	ids := make([]int, 0, len(cs)+1)
	for _, c := range cs {
		ids = append(ids, int(c.id))
	}
	ids = append(ids, int(extra.id))
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			kb.WriteString(strconv.Itoa(i))
			kb.WriteByte(',')
		}
		last = i
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.cacheHits++
		return r.r, r.m
	}
	r, m := s.query(append(cs, extra), vs)
	s.cache[key] = qres{r, m}
	return r, m
}

func (s *Solver) query(cs []*Term, vs []int32) (satRes, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	p := &s.proc[0]
	for _, c := range cs {
		if c.fp {
			p = &s.proc[1]
			s.fpQueries++
			break
		}
	}
	fail := func(msg string) (satRes, map[string]uint64) {
		s.errors = append(s.errors, msg)
		s.unknown++
		p.stop()
		return resUnknown, nil
	}
	if p.cmd == nil || p.ndefs > 60000 {
		p.stop()
		if err := s.start(p); err != nil {
			return fail("solver start: " + err.Error())
		}
	}
	for _, c := range cs {
		p.define(c)
	}
	p.buf.WriteString("(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(&p.buf, "(assert %s)\n", c.ref())
	}
	p.buf.WriteString("(check-sat)\n")
	if _, err := io.WriteString(p.in, p.buf.String()); err != nil {
		return fail("solver write: " + err.Error())
	}
	p.buf.Reset()
	l, err := p.readLine()
	if err != nil {
		return fail("solver read: " + err.Error())
	}
	switch {
	case l == "unsat":
		s.unsat++
		p.buf.WriteString("(pop 1)\n")
		return resUnsat, nil
	case l == "sat":
		s.sat++
	case l == "unknown" || strings.HasPrefix(l, "timeout"):
		s.unknown++
		p.buf.WriteString("(pop 1)\n")
		return resUnknown, nil
	default:
		return fail("solver said: " + l)
	}
	m := map[string]uint64{}
	if len(vs) > 0 {
		p.buf.WriteString("(get-value (")
		for _, v := range vs {
			p.buf.WriteString(s.tb.vars[v].ref())
			p.buf.WriteByte(' ')
		}
		p.buf.WriteString("))\n(pop 1)\n")
		if _, err := io.WriteString(p.in, p.buf.String()); err != nil {
			return fail("solver write: " + err.Error())
		}
		p.buf.Reset()
		txt, err := p.readSexp()
		if err != nil {
			return fail("solver model: " + err.Error())
		}
		if err := s.parseModel(txt, vs, m); err != nil {
			return fail("solver model: " + err.Error() + " in " + txt)
		}
	} else {
		p.buf.WriteString("(pop 1)\n")
	}
	return resSat, m
}

func (s *proc) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		switch {
		case c == '|':
			inBar = !inBar
		case inBar:
		case c == '(':
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		}
	}
}

// parseModel parses ((|a| #x00) (|b| true) ...) in order.
func (s *Solver) parseModel(txt string, vs []int32, m map[string]uint64) error {
	if strings.HasPrefix(txt, "(error") {
		return fmt.Errorf("%s", txt)
	}
	p := 1
	for _, v := range vs {
		i := strings.IndexByte(txt[p:], '(')
		if i < 0 {
			return fmt.Errorf("short model")
		}
		p += i + 1
		name := s.tb.vars[v].ref()
		if strings.HasPrefix(txt[p:], name) {
			p += len(name)
		} else if strings.HasPrefix(txt[p:], strings.Trim(name, "|")) {
			p += len(name) - 2
		} else {
			return fmt.Errorf("unexpected name")
		}
		// value up to the matching ')'
		depth := 0
		q := p
		for ; q < len(txt); q++ {
			if txt[q] == '(' {
				depth++
			} else if txt[q] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
		}
		val := strings.TrimSpace(txt[p:q])
		p = q + 1
		var u uint64
		var err error
		switch {
		case val == "true":
			u = 1
		case val == "false":
			u = 0
		case strings.HasPrefix(val, "#x"):
			u, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, err = strconv.ParseUint(val[2:], 2, 64)
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val[5:])
			u, err = strconv.ParseUint(f[0], 10, 64)
		default:
			err = fmt.Errorf("value %q", val)
		}
		if err != nil {
			return err
		}
		m[s.tb.vars[v].name] = u
	}
	return nil
}
