package hcore

import (
	"errors"
	"regexp"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// padPre and padPost are fixed text put around every arbitrary text, so that
// the same harnesses decide long buffers; both are empty outside long.
// longBytes then is the alphabet of arbitrary strings, and coarse limits
// positions to the ends of the text and of the padding; wide is for padding of wide characters.
var (
	padPre, padPost, longBytes string
	coarse, wide               bool
)

func padded() bool { return padPre != "" || padPost != "" }

// anyStr is an arbitrary string; between padding its alphabet is longBytes.
func anyStr(label string, n int, alphabet string) string {
	if padded() && longBytes != "" {
		alphabet = longBytes
	}
	return zv.Str(label, n, alphabet)
}

// anyText makes the arbitrary text of a buffer, at most n bytes (at most 2, thorough 3, between padding).
func anyText(n int, alphabet string) string {
	if !padded() {
		return zv.Str("text", n, alphabet)
	}
	return padPre + anyStr("text", min(n, tq(2, 3)), alphabet) + padPost
}

// longStr is anyStr, with or without the padding around it.
func longStr(label string, n int, alphabet string) string {
	s := anyStr(label, n, alphabet)
	if !padded() || zv.Choose(label+" short", 2) == 1 {
		return s
	}
	return padPre + s + padPost
}

// anyPos is an arbitrary position in s; with padding one at or next to the
// arbitrary part, or one of the ends.
func anyPos(label, s string) int {
	if !padded() {
		return zv.IntRange(label, 1, len(s)+1)
	}
	switch zv.Choose(label+" where", 3) {
	case 1:
		return 1
	case 2:
		return len(s) + 1
	}
	if coarse {
		return len(padPre) + 1
	}
	return zv.Concrete(zv.IntRange(label, max(1, len(padPre)), len(s)-len(padPost)+min(len(padPost), 1)+1))
}

// anyFloat is an arbitrary float64 except NaN; with padding one of several.
func anyFloat(label string) float64 {
	if padded() {
		fs := []float64{0, 1, -1, 3.5, 69, 71, -71.5, 300, -1000, 5000, 1e300, -1e300, 128, 256, 1 << 63}
		return fs[zv.Choose(label, len(fs))]
	}
	f := zv.Float(label)
	zv.Assume(f == f)
	return f
}

// anyInt is an arbitrary integer from lo to hi; with padding one of several.
func anyInt(label string, lo, hi int) int {
	if !padded() {
		return zv.IntRange(label, lo, hi)
	}
	is := []int{lo, 0, 1, 71, 128, 257, hi - 2, hi}
	if coarse {
		is = []int{lo, 1, hi}
	}
	return is[zv.Choose(label, len(is))]
}

func fill(unit string, n int) string { return strings.Repeat(unit, n/len(unit)+1) }

// long runs one of the harnesses on texts with n bytes of padding before or
// after the arbitrary part and m bytes on the other side; the padding is many short lines and words, or one long word.
func long(n, m int, alphabet string, hs ...func()) {
	unit := []string{"ab c\nd\n", "a"}[zv.Choose("padding", 2)]
	if wide {
		unit = "é中 😀\n"
	}
	padPre, padPost, longBytes = fill(unit, n), fill(unit, m), alphabet
	if zv.Choose("after", 2) == 1 {
		padPre, padPost = padPost, padPre
	}
	defer func() { padPre, padPost, coarse, wide = "", "", false, false }()
	hs[zv.Choose("harness", len(hs))]()
	zv.Cover("long")
}

const (
	longQ = 5000
	longT = 70000
)

// Bounds: as P01_step, on texts of up to 2 (thorough 3) arbitrary bytes next to 1100 (thorough 5000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P01_long() {
	coarse = true
	long(tq(1100, 5000), 70, "xy", P01_step)
}

// Bounds: as P02_returns, on texts of up to 2 (thorough 3) bytes of "xy" next to 1100 (thorough 5000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P02_long() {
	coarse = true
	long(tq(1100, 5000), 70, "xy", P02_returns)
}

// Bounds: as P03_well_typed, on texts of up to 2 (thorough 3) bytes of "xy" next to 1100 (thorough 5000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P03_long() {
	coarse = true
	long(tq(1100, 5000), 70, "xy", P03_well_typed)
}

// Bounds: as the P04 harnesses, on texts of up to 2 (thorough 3) arbitrary bytes next to 5000 (thorough 70000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P04_long() { long(tq(longQ, longT), 70, "", P04_insert, P04_delete_char, P04_region) }

// Bounds: as the P05 harnesses, on texts of up to 2 (thorough 3) arbitrary bytes next to 5000 (thorough 70000) bytes of padding on one side and 70 on the other (short lines, or one word); 15 counts.
func P05_long() { long(tq(longQ, longT), 70, "", P05_goto_char, P05_char_motion, P05_buffer_ends) }

// Bounds: as the P06 harnesses, on texts of up to 2 (thorough 3) arbitrary bytes next to 1100 (thorough 5000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P06_long() {
	long(tq(1100, 5000), 70, "", P06_word_motion, P06_kill_word, P06_backward_kill_word, P06_mark_word)
}

// Bounds: as the P07 harnesses, on texts of up to 2 (thorough 3) arbitrary bytes next to 1100 (thorough 5000) bytes of padding on one side and 70 on the other (short lines, or one word); 15 line numbers.
func P07_long() {
	long(tq(1100, 5000), 70, "", P07_line_ends, P07_goto_line, P07_mark_line, P07_delete_line, P07_kill_line)
}

// Bounds: as the P08 harnesses, on texts of up to 2 (thorough 3) bytes of "xy" next to 5000 (thorough 70000) bytes of padding on one side and 70 on the other (short lines, or one word), search strings of up to 2 (thorough 3) bytes of "xy", with and without padding around them.
func P08_long() { long(tq(longQ, longT), 70, "xy", P08_search_forward, P08_search_backward) }

// Bounds: as P09_forward, P09_backward and P09_any_bytes, on texts of up to 2 (thorough 3) bytes of "xA" next to 5000 (thorough 20000) bytes of padding on one side and 70 on the other (short lines, or one word); patterns of one atom.
func P09_long() {
	coarse = true
	long(tq(longQ, 20000), 70, "xA", P09_forward, P09_backward, P09_any_bytes)
}

// Bounds: as P10_search_replace, P10_edit_between and P10_two_searches, on texts of up to 2 (thorough 3) bytes of "xy" next to 300 (thorough 1100) bytes of padding on one side and 70 on the other (short lines, or one word).
func P10_long() {
	coarse = true
	long(tq(300, 1100), 70, "xy", P10_search_replace, P10_edit_between, P10_two_searches)
}

// Bounds: as the P11 harnesses, on texts of up to 2 (thorough 3) arbitrary bytes next to 5000 (thorough 70000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P11_long() { long(tq(longQ, longT), 70, "", P11_mark_commands, P11_region, P11_script) }

// Bounds: as the P12 harnesses, on texts of up to 2 (thorough 3) arbitrary bytes next to 5000 (thorough 70000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P12_long() {
	long(tq(longQ, longT), 70, "", P12_position_queries, P12_current_column, P12_buffer_substring)
}

// Bounds: as the P13 harnesses, on strings of up to 2 (thorough 3) arbitrary bytes next to 1100 (thorough 5000) bytes of padding on one side and 70 on the other (short lines, or one word).
func P13_long() { long(tq(1100, 5000), 70, "", P13_length, P13_concat, P13_substring) }

// Bounds: as P13_ascii_case, on strings of up to 2 (thorough 3) ASCII bytes next to 130 (thorough 300) bytes of padding on one side and 70 on the other (short lines, or one word).
func P13_long_case() { long(tq(130, 300), 70, "", P13_ascii_case) }

// Bounds: as the P14 harnesses, on texts of up to 2 (thorough 3) bytes of "xA" next to 5000 (thorough 20000) bytes of padding on one side and 70 on the other (short lines, or one word); patterns of one atom.
func P14_long() {
	coarse = true
	long(tq(longQ, 20000), 70, "xA", P14_looking_at, P14_looking_back, P14_string_match)
}

// Bounds: as P14_replace_in_string, on strings of up to 2 (thorough 3) bytes of "xA" next to 1100 (thorough 2000) bytes of padding on one side and 70 on the other (short lines, or one word); patterns of one atom.
func P14_long_replace() { long(tq(1100, 2000), 70, "xA", P14_replace_in_string) }

// Bounds: as the P27 motion and edit harnesses, on texts of up to 2 (thorough 3) bytes of "xy" next to 300 (thorough 1100) bytes of padding on one side and 70 on the other (short lines of wide characters).
func P27_long() {
	coarse, wide = true, true
	long(tq(300, 1100), 70, "xy", P27_motions_stay_on_boundaries, P27_edits_keep_text_valid)
}

// Bounds: programs of 300 (thorough 1100) instructions of which the one at one of 9 places fails, or has 150 arguments or nested calls; traced or not.
func P15_long() {
	n := tq(300, 1100)
	log := ""
	env := logEnv(&log)
	s := zv.Str("s", 1, "ab")
	var prog []edlisp.Value
	for i := 0; i < n; i++ {
		prog = append(prog, instr("t", str(string(rune('a'+i%26)))))
	}
	at := []int{0, 1, 63, 100, 127, 128, 255, 256, n - 1}[zv.Choose("at", 9)]
	kind := zv.Choose("kind", 3)
	want, part := "", ""
	switch kind {
	case 0:
		prog[at], part = instr("fail", str(s)), "!"+s
	case 1:
		var args []edlisp.Value
		all := ""
		for i := 0; i < 150; i++ {
			c := string(rune('a' + i%26))
			args = append(args, str(c))
			all += c
		}
		args[at%150] = instr("t", str(s))
		all = all[:at%150] + s + all[at%150+1:]
		prog[at], part = instr("t", args...), "("+s+")("+all+")"
	case 2:
		var v edlisp.Value = str(s)
		for i := 0; i < 150; i++ {
			v = instr("t", v)
			part += "(" + s + ")"
		}
		prog[at] = v
	}
	last := ""
	for i := 0; i < n; i++ {
		if i == at {
			want += part
			if kind == 0 {
				break
			}
			last = part
			continue
		}
		last = string(rune('a' + i%26))
		want += "(" + last + ")"
	}
	calls := 0
	b := edlisp.NewBuffer("")
	var v edlisp.Value
	var err error
	if zv.Bool("traced") {
		v, err = edlisp.EvalWithTrace(prog, env, b, func(c *edlisp.TraceContext) {
			zv.Assert(calls < n && c.Instruction == prog[calls], "the callback is called in order")
			calls++
		})
		ok := n
		if kind == 0 {
			ok = at
		}
		zv.Assert(calls == ok, "the callback runs exactly once for each successful instruction")
	} else {
		v, err = edlisp.Eval(prog, env, b)
	}
	zv.Assert(log == want, "a long program runs in order and stops at the first error")
	zv.Assert((err != nil) == (kind == 0), "a long program fails exactly when an instruction does")
	if err != nil {
		var ee *edlisp.ExecutionError
		zv.Assert(errors.As(err, &ee) && ee.InstructionIndex == at && ee.CurrentInstruction == prog[at], "the error names the failing instruction")
		zv.Cover("error")
	} else if at < n-1 {
		zv.Assert(isStr(v, last), "the value is that of the last instruction")
		zv.Cover("value")
	}
}

// Bounds: 40 (thorough 300) executions of one of 4 scripts on texts of up to 2 bytes, on fresh buffers, in one environment or fresh ones: every one gives the first one's text, match, error and value.
func P25_many() {
	text := zv.Str("text", 2, "ab\n")
	prog := [][]edlisp.Value{
		{instr("search-forward", str("a")), instr("replace-match", str("b"))},
		{instr("re-search-forward", str("[ab]")), instr("concat", str("x"), str("y"))},
		{instr("insert", str("z")), instr("kill-line"), instr("string-match", str("b+"), str("ab"))},
		{instr("looking-at", str("a")), instr("replace-regexp-in-string", str("a"), str("b"), str("aa"))},
	}[zv.Choose("script", 4)]
	env := edlisp.NewDefaultEnvironment()
	fresh := zv.Bool("fresh")
	b0 := edlisp.NewBuffer(text)
	v0, e0 := edlisp.Eval(prog, env, b0)
	s0 := snapFull(b0)
	for i := 0; i < tq(40, 300); i++ {
		if fresh {
			env = edlisp.NewDefaultEnvironment()
		}
		b := edlisp.NewBuffer(text)
		v, e := edlisp.Eval(prog, env, b)
		zv.Assert(snapFull(b) == s0 && sameErr(e, e0) && (e != nil || edlisp.Equal(v, v0)), "every execution of the same script on the same text is the same")
		// something else in between
		o := edlisp.NewBuffer(text + string(rune('a'+i%26)))
		edlisp.Eval([]edlisp.Value{instr("re-search-forward", str(string(rune('a'+i%26)))), instr("insert", str("q"))}, env, o)
	}
	zv.Cover("many")
}

// Bounds: lists of 100 (thorough 300) elements or nested 60 (300) deep that differ at one of 4 places or not at all; append to and rest of them.
func P26_long() {
	n := tq(100, 300)
	s, t := zv.StrN("s", 1, "ab"), zv.StrN("t", 1, "ab")
	at := []int{0, n / 2, 64, n - 1}[zv.Choose("at", 4)]
	mk := func(x string) edlisp.Value {
		var els []edlisp.Value
		for i := 0; i < n; i++ {
			els = append(els, inum(i))
		}
		els[at] = str(x)
		return list(els...)
	}
	if zv.Bool("deep") {
		mk = func(x string) edlisp.Value {
			var v edlisp.Value = list()
			for i := 0; i < tq(60, 300); i++ {
				v = list(sym("f"), v)
				if i == at%60 {
					v = list(sym("f"), v, str(x))
				}
			}
			return v
		}
	}
	a, b := mk(s), mk(t)
	zv.Assert(edlisp.Equal(a, b) == (s == t), "long values are equal exactly when structurally identical")
	l := a.(*edlisp.List)
	m := l.Len()
	ap := l.Append(str("x"))
	re := l.Rest()
	zv.Assert(ap.Len() == m+1 && re.Len() == m-1 && l.Len() == m, "append and rest return new lists")
	for i := 0; i < m; i++ {
		zv.Assert(ap.Get(i) == l.Get(i) && (i == 0 || re.Get(i-1) == l.Get(i)), "append and rest keep the elements")
	}
	zv.Assert(edlisp.Equal(a, mk(s)), "append and rest leave the list alone")
	zv.Cover("long")
}

// sizes are lengths around those at which an implementation may change its ways.
var sizes = []int{3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 129}

// medium makes a string of n bytes that are all fixed except one at one of 3 places.
func medium(label string, n int, alphabet string) string {
	s := strings.Repeat("abcab", n/5+1)[:n]
	i := []int{0, n / 2, n - 1}[zv.Choose(label+" at", 3)]
	return s[:i] + zv.StrN(label, 1, alphabet) + s[i+1:]
}

// Bounds: search strings of 19 lengths from 3 to 129 with one arbitrary byte of "abA" at one of 3 places, in a text of two near matches (one byte of each
// arbitrary) with up to 1 byte between; both directions, from either end, the middle and inside of a match.
func P08_medium() {
	n := sizes[zv.Choose("size", len(sizes))]
	pat := medium("pattern", n, "abA")
	one := medium("one", n, "abA")
	text := "x" + one + zv.Str("between", 1, "ab") + strings.Repeat("abcab", n/5+1)[:n] + "y"
	b := edlisp.NewBuffer(text)
	b.SetPoint([]int{1, 2, 3, n + 2, n + 3, len(text), len(text) + 1}[zv.Choose("point", 7)])
	before := snapFull(b)
	s := -1
	if zv.Choose("backward", 2) == 1 {
		for i := b.Point() - 1 - len(pat); i >= 0; i-- {
			if hasAt(text, pat, i) {
				s = i
				break
			}
		}
		_, err := do(b, "search-backward", str(pat))
		afterSearch(b, before, err, s, s+len(pat))
		return
	}
	for i := b.Point() - 1; i+len(pat) <= len(text); i++ {
		if hasAt(text, pat, i) {
			s = i
			break
		}
	}
	_, err := do(b, "search-forward", str(pat))
	afterSearch(b, before, err, s, s+len(pat))
}

// Bounds: inserting, replacing a region or a match by strings of 19 lengths from 3 to 129 with one arbitrary byte at one of 3 places, in a text of up to 2 arbitrary bytes.
func P04_medium() {
	text := zv.Str("text", 2, zv.Any)
	s := medium("s", sizes[zv.Choose("size", len(sizes))], zv.Any)
	b := placed(text)
	before := snap(b)
	p, lo, hi := before.pt-1, min(before.pt, before.mark)-1, max(before.pt, before.mark)-1
	switch zv.Choose("how", 3) {
	case 0:
		_, err := do(b, "insert", str(s))
		zv.Assert(err == nil && b.String() == text[:p]+s+text[p:] && b.Point() == p+len(s)+1, "insert puts the text at point and moves point after it")
	case 1:
		b.Insert(s)
		zv.Assert(b.String() == text[:p]+s+text[p:] && b.Point() == p+len(s)+1, "Insert puts the text at point and moves point after it")
	case 2:
		_, err := do(b, "replace-region", str(s))
		zv.Assert(err == nil && b.String() == text[:lo]+s+text[hi:], "replace-region replaces exactly the region")
	}
	zv.Cover("inserted")
}

// Bounds: concat of 0..70 arguments (13 counts) of which one at one of 3 places is an arbitrary string of up to 2 bytes; length, substring, upcase, downcase and capitalize of strings of 19 lengths from 3 to 129
// with one arbitrary ASCII byte at one of 3 places.
func P13_medium() {
	if zv.Bool("concat") {
		n := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 33, 70}[zv.Choose("count", 13)]
		at := []int{0, n / 2, n - 1}[zv.Choose("at", 3)]
		var args []edlisp.Value
		want := ""
		for i := 0; i < n; i++ {
			s := "a"
			if i == at {
				s = zv.Str("s", 2, zv.Any)
			}
			args = append(args, str(s))
			want += s
		}
		v, err := strCall("concat", args...)
		zv.Assert(err == nil && isStr(v, want), "concat joins all its arguments in order")
		zv.Cover("concat")
		return
	}
	n := sizes[zv.Choose("size", len(sizes))]
	s := medium("s", n, zv.ASCII)
	fn := zv.Choose("fn", 5)
	name := []string{"length", "upcase", "downcase", "capitalize", "substring"}[fn]
	args := []edlisp.Value{str(s)}
	lo, hi := 1, n+1
	if fn == 4 {
		lo, hi = []int{1, 2, n - 1, n}[zv.Choose("lo", 4)], []int{n - 1, n, n + 1, n + 2}[zv.Choose("hi", 4)]
		zv.Assume(lo <= hi)
		args = append(args, inum(lo), inum(hi))
	}
	v, err := strCall(name, args...)
	zv.Assert(err == nil, name+" succeeds")
	var want []byte
	for i := 0; i < n; i++ {
		c := s[i]
		if lower := c >= 'a' && c <= 'z'; lower && (fn == 1 || fn == 3 && i == 0) {
			c -= 32
		} else if upper := c >= 'A' && c <= 'Z'; upper && (fn == 2 || fn == 3 && i > 0) {
			c += 32
		}
		want = append(want, c)
	}
	switch fn {
	case 0:
		zv.Assert(isNum(v, n), "length is the byte length")
	case 4:
		zv.Assert(isStr(v, s[lo-1:min(hi, n+1)-1]), "substring is the half-open slice, clipped")
	default:
		zv.Assert(isStr(v, string(want)), name+" maps the letters and nothing else")
	}
	zv.Cover("mapped")
}

// Bounds: 2600 (thorough 6000) bytes of short lines, one arbitrary byte of "abd" at the start or the end; 6 patterns with up to about 1000 (2500) matches; searches from both ends, and from the middle; string-match and
// replace-regexp-in-string on the same text.
func P09_many() { manyMatches("P09") }

// Bounds: as P09_many.
func P14_many() { manyMatches("P14") }

func manyMatches(which string) {
	pad := fill("ab c\nd\n", tq(2600, 6000))
	text := zv.StrN("first", 1, "abd") + pad
	if zv.Choose("end", 2) == 1 {
		text = pad + text[:1]
	}
	pat := []string{"[a-d]+", "\n", "b", "d$", "(?m)^a", "a"}[zv.Choose("pattern", 6)]
	re := regexp.MustCompile(pat)
	if which == "P14" {
		want, last := "", 0
		for _, m := range re.FindAllStringIndex(text, -1) {
			want += text[last:m[0]] + "<>"
			last = m[1]
		}
		want += text[last:]
		b := edlisp.NewBuffer("")
		v, err := do(b, "replace-regexp-in-string", str(pat), str("<>"), str(text))
		zv.Assert(err == nil && isStr(v, want), "replace-regexp-in-string replaces every successive match and nothing else")
		zv.Cover("replaced")
		return
	}
	b := edlisp.NewBuffer(text)
	b.SetPoint([]int{1, len(text)/2 + 1, len(text) + 1}[zv.Choose("point", 3)])
	p := b.Point() - 1
	before := snapFull(b)
	s, e := -1, -1
	if zv.Choose("backward", 2) == 1 {
		if ms := re.FindAllStringIndex(text[:p], -1); len(ms) > 0 {
			s, e = ms[len(ms)-1][0], ms[len(ms)-1][1]
		}
		_, err := do(b, "re-search-backward", str(pat))
		afterSearch(b, before, err, s, e)
		return
	}
	if m := re.FindStringIndex(text[p:]); m != nil {
		s, e = p+m[0], p+m[1]
	}
	_, err := do(b, "re-search-forward", str(pat))
	afterSearch(b, before, err, s, e)
}

// Bounds: as P04_long with 70000 (thorough 300000) bytes of padding, positions at the ends and next to the padding only, 3 counts.
func P04_huge() {
	coarse = true
	long(tq(70000, 300000), 70, "", P04_insert, P04_delete_char, P04_region)
}

// Bounds: as P05_long with 70000 (thorough 300000) bytes of padding, positions at the ends and next to the padding only, 3 counts.
func P05_huge() {
	coarse = true
	long(tq(70000, 300000), 70, "", P05_goto_char, P05_char_motion, P05_buffer_ends)
}

// Bounds: as P08_long with 20000 (thorough 70000) bytes of padding, positions at the ends and next to the padding only, 3 counts.
func P08_huge() {
	coarse = true
	long(tq(20000, 70000), 70, "xy", P08_search_forward, P08_search_backward)
}

// Bounds: as P11_long with 70000 (thorough 300000) bytes of padding, positions at the ends and next to the padding only, 3 counts.
func P11_huge() {
	coarse = true
	long(tq(70000, 300000), 70, "", P11_mark_commands, P11_region, P11_script)
}

// Bounds: as P12_long with 70000 (thorough 300000) bytes of padding, positions at the ends and next to the padding only, 3 counts.
func P12_huge() {
	coarse = true
	long(tq(70000, 300000), 70, "", P12_position_queries, P12_current_column, P12_buffer_substring)
}
