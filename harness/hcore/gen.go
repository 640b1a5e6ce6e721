package hcore

import (
	"errors"
	"math"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// sig describes a builtin: one letter per argument, n number, s string,
// r regexp; letters after a question mark are optional.
type sig struct{ name, args string }

// builtins lists every function of the default environment; P23 checks that
// the list is complete.
var builtins = []sig{
	{"insert", "s"}, {"goto-char", "n"}, {"goto-line", "n"}, {"search-forward", "s"}, {"search-backward", "s"},
	{"re-search-forward", "r"}, {"re-search-backward", "r"}, {"end-of-buffer", ""}, {"beginning-of-buffer", ""},
	{"set-mark", ""}, {"mark", ""}, {"point", ""}, {"line-number-at-pos", ""}, {"replace-match", "s"},
	{"delete-region", ""}, {"buffer-substring", "nn"}, {"mark-word", ""}, {"replace-region", "s"},
	{"region-beginning", ""}, {"region-end", ""}, {"forward-char", "?n"}, {"backward-char", "?n"},
	{"length", "s"}, {"substring", "sn?n"}, {"string-match", "rs"}, {"beginning-of-line", ""}, {"end-of-line", ""},
	{"buffer-size", ""}, {"point-max", ""}, {"point-min", ""}, {"current-column", ""},
	{"upcase", "s"}, {"downcase", "s"}, {"capitalize", "s"}, {"concat", "*"},
	{"set-mark-command", "?n"}, {"exchange-point-and-mark", ""}, {"mark-whole-buffer", ""},
	{"delete-char", "?n"}, {"delete-backward-char", "?n"}, {"forward-word", "?n"}, {"backward-word", "?n"},
	{"looking-at", "r"}, {"looking-back", "r"}, {"mark-line", "?n"}, {"delete-line", "?n"}, {"kill-line", "?n"},
	{"kill-word", "?n"}, {"backward-kill-word", "?n"}, {"replace-regexp-in-string", "rss"},
}

// lim returns the smallest and largest argument count of a signature.
func (s sig) lim() (lo, hi int) {
	if s.args == "*" {
		return 0, 1 << 30
	}
	opt := false
	for i := 0; i < len(s.args); i++ {
		if s.args[i] == '?' {
			opt = true
			continue
		}
		hi++
		if !opt {
			lo++
		}
	}
	return
}

// kind returns the kind of the i-th argument.
func (s sig) kind(i int) byte {
	if s.args == "*" {
		return 's'
	}
	k := 0
	for j := 0; j < len(s.args); j++ {
		if s.args[j] == '?' {
			continue
		}
		if k == i {
			return s.args[j]
		}
		k++
	}
	return 'x'
}

// edits reports whether the function can change the text.
func edits(name string) bool {
	switch name {
	case "insert", "replace-match", "delete-region", "replace-region", "delete-char", "delete-backward-char",
		"delete-line", "kill-line", "kill-word", "backward-kill-word":
		return true
	}
	return false
}

// gen controls the arguments made by anyArgs.
type gen struct {
	alphabet string   // of string arguments
	slen     int      // their maximal length
	floats   bool     // numbers are made by anyNum, else small integers
	lo, hi   int      // range of small integers
	rx       []string // regexps to choose from
}

func (g gen) arg(k byte, label string) edlisp.Value {
	switch k {
	case 'n':
		if g.floats {
			return anyNum(label)
		}
		return inum(anyInt(label, g.lo, g.hi))
	case 's':
		return str(anyStr(label, g.slen, g.alphabet))
	}
	return str(g.rx[zv.Choose(label, len(g.rx))])
}

// anyArgs makes well-typed arguments for s.
func (g gen) anyArgs(s sig, label string) []edlisp.Value {
	var args []edlisp.Value
	if s.args == "*" {
		for n := zv.Choose(label+" concat", 3); n > 0; n-- {
			args = append(args, g.arg('s', label+"c"))
		}
		return args
	}
	if len(s.args) > 1 && s.args[0] == 'r' {
		g.alphabet = "ab\n" // the text a regexp is applied to
	}
	lo, hi := s.lim()
	n := lo + zv.Choose(label+" optional", hi-lo+1)
	for i := 0; i < n; i++ {
		args = append(args, g.arg(s.kind(i), label+string(rune('0'+i))))
	}
	return args
}

// anyNum makes a number: a small integer or one of the extreme, fractional
// and non-finite values; every float64 in the thorough tier.
func anyNum(label string) edlisp.Value {
	if zv.Tier() > 0 && zv.Bool(label+" any") {
		return num(zv.Float(label))
	}
	ext := []float64{0, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -(1 << 63), 1 << 62, 1<<31 + 0.5, -0.5, 1.5}
	if k := zv.Choose(label+" kind", len(ext)); k > 0 {
		return num(ext[k])
	}
	return inum(zv.IntRange(label, -2, 5))
}

// anyInstr makes an arbitrary well-typed instruction.
func (g gen) anyInstr(label string) (sig, edlisp.Value) {
	s := builtins[zv.Choose(label, len(builtins))]
	return s, instr(s.name, g.anyArgs(s, label)...)
}

// probe reads the remembered search match without changing the buffer.
func probe(b *edlisp.Buffer) (match string, start, end int) {
	_, err := edlisp.Eval([]edlisp.Value{list()}, edlisp.NewDefaultEnvironment(), b)
	var ee *edlisp.ExecutionError
	if !errors.As(err, &ee) {
		zv.Fail("the empty list is an execution error")
	}
	return ee.LastSearchMatch, ee.LastSearchStart, ee.LastSearchEnd
}

// full is the state of a buffer including the remembered match.
type full struct {
	state
	match      string
	start, end int
}

func snapFull(b *edlisp.Buffer) full {
	f := full{state: snap(b)}
	f.match, f.start, f.end = probe(b)
	return f
}

// remember makes the buffer remember a match of its first k bytes, one that
// is now elsewhere, or none, then puts point and mark at arbitrary places.
func remember(b *edlisp.Buffer, k int) {
	text := b.String()
	if k = min(k, len(text)); k > 0 {
		n := 3
		if padded() {
			n = 2
		} else if len(text) <= 2 {
			n = 4
		}
		switch zv.Choose("remember", n) {
		case 1:
			b.SetPoint(1)
			do(b, "search-forward", str(text[:k]))
		case 2:
			b.SetPoint(1)
			b.Insert("\x00")
			do(b, "search-forward", str(text[:k]))
			b.SetPoint(1)
			do(b, "delete-char")
		case 3:
			used(b)
		}
	}
	b.SetPoint(anyPos("point", text))
	b.SetMark(anyPos("mark", text))
}

// used replaces the text of b by another one of the same length, uses that, and puts the text back; what b may keep for later is out of date then.
func used(b *edlisp.Buffer) {
	text := b.String()
	do(b, "mark-whole-buffer")
	do(b, "replace-region", str(strings.Repeat("x\n", len(text))[:len(text)]))
	for _, in := range []edlisp.Value{instr("line-number-at-pos"), instr("current-column"), instr("goto-line", inum(2)), instr("forward-word"), instr("backward-word"), instr("end-of-line"),
		instr("beginning-of-line"), instr("forward-char"), instr("buffer-substring", inum(1), inum(2)), instr("search-backward", str("x")), instr("mark-line"), instr("end-of-buffer"),
		instr("re-search-backward", str("x")), instr("looking-back", str("x"))} {
		run(b, in)
	}
	do(b, "mark-whole-buffer")
	do(b, "delete-region")
	b.Insert(text)
}

// cause is the error a builtin returned.
func cause(err error) error {
	var ee *edlisp.ExecutionError
	if errors.As(err, &ee) {
		return ee.OriginalError
	}
	return err
}
