package hcore

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// readers are instructions that keep the text; what they may compute and keep for later is out of date once the text has changed.
func readers() []edlisp.Value {
	return []edlisp.Value{instr("line-number-at-pos"), instr("current-column"), instr("goto-line", inum(2)), instr("end-of-line"), instr("line-number-at-pos"), instr("buffer-size"), instr("point-max"),
		instr("forward-word"), instr("backward-word"), instr("beginning-of-line"), instr("forward-char"), instr("backward-char"), instr("buffer-substring", inum(1), inum(3)), instr("mark-word"), instr("mark-line"),
		instr("region-end"), instr("looking-at", str("a")), instr("looking-back", str("a")), instr("end-of-buffer"), instr("line-number-at-pos"), instr("re-search-backward", str("a")), instr("search-backward", str("a")),
		instr("beginning-of-buffer"), instr("search-forward", str("a")), instr("re-search-forward", str("a"))}
}

// retext replaces the whole text of b by another one of the same length.
func retext(b *edlisp.Buffer, s string) {
	switch zv.Choose("retext", 3) {
	case 0:
		do(b, "mark-whole-buffer")
		do(b, "replace-region", str(s))
	case 1:
		do(b, "mark-whole-buffer")
		do(b, "delete-region")
		b.Insert(s)
	case 2:
		for i := range s {
			do(b, "goto-char", inum(i+1))
			do(b, "delete-char")
			do(b, "insert", str(s[i:i+1]))
		}
	}
}

// Bounds: text of 3 (thorough 4) bytes of "a\n"; 25 instructions that keep the text, from the start and again from the end; the text is replaced by another arbitrary one of the same length in 3 ways; then
// any instruction at any point.
func P28_warm() {
	n := tq(3, 4)
	b := edlisp.NewBuffer(zv.StrN("old", n, "a\n"))
	for i := 0; i < 2; i++ {
		for _, in := range readers() {
			run(b, in)
		}
		do(b, "end-of-buffer")
	}
	s := zv.StrN("new", n, "a\n")
	retext(b, s)
	zv.Assert(b.String() == s, "the text is replaced")
	b.SetPoint(zv.IntRange("point", 1, n+1))
	likeTwin(b, anyPlain("last", 1))
}

// Bounds: as P28_warm with one of 50 instructions instead of the 25, 2 bytes, and 10 instructions after it.
func P28_warm_one() {
	b := edlisp.NewBuffer(zv.StrN("old", 2, "a\n"))
	b.SetPoint(zv.Choose("first point", 3) + 1)
	run(b, anyPlain("first", 1))
	s := zv.StrN("new", len(b.String()), "a\n")
	retext(b, s)
	b.SetPoint(zv.IntRange("point", 1, len(s)+1))
	steps := []edlisp.Value{instr("line-number-at-pos"), instr("current-column"), instr("goto-line", inum(2)), instr("forward-word"), instr("kill-line"), instr("re-search-forward", str("a")),
		instr("search-backward", str("a")), instr("replace-match", str("b")), instr("mark-line"), instr("delete-region")}
	likeTwin(b, steps[zv.Choose("last", len(steps))])
}

// near2 makes two different strings of about n bytes that differ at one place.
func near2(label string) (a, b string) {
	n := sizes[zv.Choose(label+" size", len(sizes))]
	a = strings.Repeat("abcde", n/5+1)[:n]
	i := []int{0, n / 2, n - 1}[zv.Choose(label+" at", 3)]
	switch zv.Choose(label+" how", 4) {
	case 0:
		b = a[:i] + "x" + a[i+1:]
	case 1:
		b = a[:i] + a[i+1:]
	case 2:
		b = a[:i] + "y" + a[i:]
	case 3:
		i = min(i, n-2)
		b = a[:i] + a[i+1:i+2] + a[i:i+1] + a[i+2:]
	}
	if zv.Choose(label+" swapped", 2) == 1 {
		a, b = b, a
	}
	return
}

// Bounds: two search strings of 19 lengths from 3 to 129 that differ by a changed, a dropped, an added or two swapped bytes at one of 3 places; a search for the first one, then one for the second in a text
// that holds both, with one arbitrary byte of "abx" between; both directions, same or fresh buffer.
func P08_keys() {
	a, pat := near2("pattern")
	text := a + "-" + zv.StrN("between", 1, "abx") + pat + "-" + a
	name := []string{"search-forward", "search-backward"}[zv.Choose("first", 2)]
	b := edlisp.NewBuffer(text)
	b.SetPoint(len(a) + 2)
	do(b, name, str(a))
	if zv.Choose("fresh", 2) == 1 {
		b = edlisp.NewBuffer(text)
	}
	if zv.Choose("backward", 2) == 1 {
		b.SetPoint(len(text) + 1)
		before := snapFull(b)
		s := strings.LastIndex(text, pat)
		_, err := do(b, "search-backward", str(pat))
		afterSearch(b, before, err, s, s+len(pat))
		return
	}
	b.SetPoint(1)
	before := snapFull(b)
	s := strings.Index(text, pat)
	_, err := do(b, "search-forward", str(pat))
	afterSearch(b, before, err, s, s+len(pat))
}

// reKeys makes two regexps: two texts as in near2, or the second one with a special character in it.
func reKeys() (a, b string) {
	a, b = near2("regexp")
	i := strings.LastIndexAny(b, "bcd")
	switch zv.Choose("special", 3) {
	case 1:
		b = b[:i] + "." + b[i+1:]
	case 2:
		b = b[:i] + "(?i)" + b[i:]
	}
	return
}

// Bounds: two regexps of 19 lengths from 3 to 133, that differ by a changed, a dropped, an added or two swapped bytes at one of 3 places, the second one also with a "." or a flag in it; a search for the
// first one, then one for the second in a text that holds both, with one arbitrary byte of "abx" between; both directions, same or fresh buffer.
func P09_keys() {
	a, pat := reKeys()
	text := strings.ReplaceAll(pat, "(?i)", "") + "-" + zv.StrN("between", 1, "abx") + a + "-" + strings.ToUpper(a)
	b := edlisp.NewBuffer(text)
	do(b, []string{"re-search-forward", "looking-at"}[zv.Choose("first", 2)], str(a))
	if zv.Choose("fresh", 2) == 1 {
		b = edlisp.NewBuffer(text)
	}
	re := regexp.MustCompile(pat)
	s, e := -1, -1
	if zv.Choose("backward", 2) == 1 {
		b.SetPoint(len(text) + 1)
		before := snapFull(b)
		if ms := re.FindAllStringIndex(text, -1); len(ms) > 0 {
			s, e = ms[len(ms)-1][0], ms[len(ms)-1][1]
		}
		_, err := do(b, "re-search-backward", str(pat))
		afterSearch(b, before, err, s, e)
		return
	}
	b.SetPoint(1)
	before := snapFull(b)
	if m := re.FindStringIndex(text); m != nil {
		s, e = m[0], m[1]
	}
	_, err := do(b, "re-search-forward", str(pat))
	afterSearch(b, before, err, s, e)
}

// Bounds: two regexps as in P09_keys; one of the 4 functions that match without moving is called with the first, then with the second, on the text of the second, of the first, or the first one's in capitals, after one arbitrary byte of "ax".
func P14_keys() {
	a, pat := reKeys()
	plain := strings.ReplaceAll(pat, "(?i)", "")
	text := zv.StrN("before", 1, "ax") + []string{a, plain, strings.ToUpper(a)}[zv.Choose("text", 3)]
	f := zv.Choose("function", 4)
	b := edlisp.NewBuffer(text)
	re := regexp.MustCompile(pat)
	switch f {
	case 0:
		b.SetPoint(2)
		do(b, "looking-at", str(a))
		v, err := do(b, "looking-at", str(pat))
		m := re.FindStringIndex(text[1:])
		zv.Assert(err == nil && boolSym(v, m != nil && m[0] == 0), "looking-at tells whether the regexp matches at point")
	case 1:
		b.SetPoint(len(text) + 1)
		do(b, "looking-back", str(a))
		v, err := do(b, "looking-back", str(pat))
		zv.Assert(err == nil && boolSym(v, regexp.MustCompile(`(?:`+pat+`)\z`).MatchString(text)), "looking-back tells whether the regexp matches text that ends at point")
	case 2:
		do(b, "string-match", str(a), str(text))
		v, err := do(b, "string-match", str(pat), str(text))
		m := re.FindStringIndex(text)
		if m == nil {
			zv.Assert(err == nil && isSym(v, "nil"), "string-match is nil where nothing matches")
		} else {
			zv.Assert(err == nil && isNum(v, m[0]), "string-match is the place of the leftmost match")
		}
	case 3:
		do(b, "replace-regexp-in-string", str(a), str("<"), str(text))
		v, err := do(b, "replace-regexp-in-string", str(pat), str(">"), str(text))
		zv.Assert(err == nil && isStr(v, re.ReplaceAllString(text, ">")), "replace-regexp-in-string replaces the matches")
	}
	zv.Cover("matched")
}

// Bounds: two strings of 19 lengths from 3 to 129 that differ by a changed, a dropped, an added or two swapped bytes at one of 3 places, the second also in mixed case; one of 4 functions is applied to the first, then to the second.
func P13_keys() {
	a, s := near2("s")
	if zv.Choose("case", 2) == 1 {
		s = s[:len(s)/2] + strings.ToUpper(s[len(s)/2:])
	}
	f := zv.Choose("function", 4)
	name := []string{"length", "upcase", "downcase", "capitalize"}[f]
	strCall(name, str(a))
	v, err := strCall(name, str(s))
	zv.Assert(err == nil, name+" succeeds")
	switch f {
	case 0:
		zv.Assert(isNum(v, len(s)), "length is the byte length")
	case 1:
		zv.Assert(isStr(v, strings.ToUpper(s)), "upcase maps the letters")
	case 2:
		zv.Assert(isStr(v, strings.ToLower(s)), "downcase maps the letters")
	case 3:
		zv.Assert(isStr(v, strings.ToUpper(s[:1])+strings.ToLower(s[1:])), "capitalize maps the letters")
	}
	zv.Cover("mapped")
}

// Bounds: two strings as in P08_keys; a search, match or edit of 9 kinds with the first, then the same one with the second, at either end, compared with the same in a process of its own and with a new buffer of the same state.
func P28_keys() {
	a, s := near2("s")
	text := s + "-" + zv.StrN("between", 1, "abx") + a
	b := edlisp.NewBuffer(text)
	k := zv.Choose("instruction", 9)
	mk := func(s string) edlisp.Value {
		return []edlisp.Value{instr("search-forward", str(s)), instr("re-search-forward", str(s)), instr("looking-at", str(s)), instr("string-match", str(s), str(text)), instr("insert", str(s)),
			instr("replace-regexp-in-string", str(s), str("-"), str(text)), instr("upcase", str(s)), instr("concat", str(s), str(s)), instr("capitalize", str(s))}[k]
	}
	pt := []int{1, len(text) + 1}[zv.Choose("point", 2)]
	b.SetPoint(pt)
	second := func() ([]string, []int) {
		c := edlisp.NewBuffer(text)
		c.SetPoint(pt)
		v, err := run(c, mk(s))
		if err != nil {
			return []string{c.String(), cause(err).Error()}, []int{c.Point(), c.Mark()}
		}
		return []string{c.String(), show(v)}, []int{c.Point(), c.Mark()}
	}
	t0, i0 := zv.Fork(second)
	run(b, mk(a))
	t1, i1 := second()
	zv.Assert(t0[0] == t1[0] && t0[1] == t1[1] && i0[0] == i1[0] && i0[1] == i1[1], "an instruction does what it does in a process of its own")
	likeTwin(b, mk(s))
}

// show is a string, or the type of another value with its number or name.
func show(v edlisp.Value) string {
	switch x := v.(type) {
	case *edlisp.String:
		return x.Value
	case *edlisp.Symbol:
		return "symbol " + x.Name
	case *edlisp.Number:
		return "number " + strconv.Itoa(int(x.Value))
	}
	return "other"
}

// far makes a text of many bytes between two arbitrary ones and a regexp whose matches span it.
func far(n int) (text, pat string) {
	unit := []string{"a", "ab\n"}[zv.Choose("unit", 2)]
	text = zv.StrN("first", 1, "xy") + fill(unit, n) + zv.StrN("last", 1, "xy")
	pats := []string{"x[ab\\n]*y", "^[ab\\n]*y", "\\A[ab\\n]+", "(?s)x.*", "(?s).*y", "x[^x]*x", "(?s)^.*$", "x", "x.*y", "[ab\\n]{3}y", "(?m)^a.*$", "y$"}
	return text, pats[zv.Choose("pattern", len(pats))]
}

// farSizes are sizes of texts.
func farSizes() []int { return []int{100, 300, 1100, 5000, 20000} }

// Bounds: texts of 100, 300, 1100, 5000 or 20000 bytes of one word or short lines between two arbitrary bytes of "xy"; 12 regexps most of whose matches span the text; searches from either end and from after or before its first or last byte.
func P09_far() {
	text, pat := far(farSizes()[zv.Choose("size", 5)])
	re := regexp.MustCompile(pat)
	b := edlisp.NewBuffer(text)
	p := []int{0, 1, len(text) - 1, len(text)}[zv.Choose("point", 4)]
	b.SetPoint(p + 1)
	before := snapFull(b)
	s, e := -1, -1
	if zv.Choose("backward", 2) == 1 {
		if ms := re.FindAllStringIndex(text[:p], -1); len(ms) > 0 {
			s, e = ms[len(ms)-1][0], ms[len(ms)-1][1]
		}
		_, err := do(b, "re-search-backward", str(pat))
		afterSearch(b, before, err, s, e)
		return
	}
	if m := re.FindStringIndex(text[p:]); m != nil {
		s, e = p+m[0], p+m[1]
	}
	_, err := do(b, "re-search-forward", str(pat))
	afterSearch(b, before, err, s, e)
}

// Bounds: texts and regexps as in P09_far (up to 5000, thorough 20000 bytes); looking-at at the start and after the first byte, looking-back at the end and before the last byte, string-match and replace-regexp-in-string.
func P14_far() {
	text, pat := far(farSizes()[zv.Choose("size", tq(4, 5))])
	re := regexp.MustCompile(pat)
	b := edlisp.NewBuffer(text)
	switch zv.Choose("function", 4) {
	case 0:
		p := zv.Choose("point", 2)
		b.SetPoint(p + 1)
		v, err := do(b, "looking-at", str(pat))
		m := re.FindStringIndex(text[p:])
		zv.Assert(err == nil && boolSym(v, m != nil && m[0] == 0), "looking-at is t exactly when the leftmost match starts at point")
	case 1:
		p := len(text) - zv.Choose("point", 2)
		b.SetPoint(p + 1)
		v, err := do(b, "looking-back", str(pat))
		zv.Assert(err == nil && boolSym(v, regexp.MustCompile(`(?:`+pat+`)\z`).MatchString(text[:p])), "looking-back is t exactly when some match ends at point")
	case 2:
		v, err := do(b, "string-match", str(pat), str(text))
		if m := re.FindStringIndex(text); m == nil {
			zv.Assert(err == nil && isSym(v, "nil"), "string-match returns nil without a match")
		} else {
			zv.Assert(err == nil && isNum(v, m[0]), "string-match returns the 0-based start of the leftmost match")
		}
	case 3:
		v, err := do(b, "replace-regexp-in-string", str(pat), str(">"), str(text))
		zv.Assert(err == nil && isStr(v, re.ReplaceAllString(text, ">")), "replace-regexp-in-string replaces every successive match and nothing else")
	}
	zv.Cover("matched")
}
