package hcore

import (
	"regexp"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// anEdit makes one editing instruction.
func anEdit(label string) edlisp.Value {
	n := func() edlisp.Value { return inum(zv.IntRange(label+" n", 1, 3)) }
	switch zv.Choose(label, 9) {
	case 0:
		return instr("insert", str(anyStr(label+" s", 2, "ab\n")))
	case 1:
		return instr("delete-char", n())
	case 2:
		return instr("delete-backward-char", n())
	case 3:
		return instr("delete-region")
	case 4:
		return instr("replace-region", str(anyStr(label+" s", 2, "ab\n")))
	case 5:
		return instr("delete-line")
	case 6:
		return instr("kill-line", inum(zv.IntRange(label+" n", 1, 2)))
	case 7:
		return instr("kill-word")
	}
	return instr("backward-kill-word")
}

// aSearch runs a successful search for text and returns the match; all four searches are used.
func aSearch(b *edlisp.Buffer, text string) (s, e int) {
	switch zv.Choose("search", 4) {
	case 0:
		pat := longStr("pattern", 2, "ab\n")
		_, err := do(b, "search-forward", str(pat))
		zv.Assume(err == nil)
		return b.Point() - 1 - len(pat), b.Point() - 1
	case 1:
		pat := longStr("pattern", 2, "ab\n")
		_, err := do(b, "search-backward", str(pat))
		zv.Assume(err == nil)
		return b.Point() - 1 - len(pat), b.Point() - 1
	case 2:
		_, err := do(b, "re-search-forward", str("a|b\n"))
		zv.Assume(err == nil)
	case 3:
		_, err := do(b, "re-search-backward", str("a|b\n"))
		zv.Assume(err == nil)
	}
	e = b.Point() - 1
	if text[e-1] == 'a' {
		return e - 1, e
	}
	return e - 2, e
}

func checkReplace(b *edlisp.Buffer, match string, s int, live bool, again string) bool {
	before := snap(b)
	repl := anyStr("repl"+again, tq(1, 2), zv.Any)
	_, err := do(b, "replace-match", str(repl))
	if live && hasAt(before.text, match, s) {
		if match == "" && err != nil {
			zv.Assert(snap(b) == before, "a refused replacement changes nothing")
			return false
		}
		zv.Assert(err == nil, "replace-match succeeds while the matched text is in place"+again)
		zv.Assert(b.String() == before.text[:s]+repl+before.text[s+len(match):], "replace-match replaces exactly the matched text where it was found"+again)
		zv.Assert(b.Point() == s+len(repl)+1, "replace-match leaves point after the replacement"+again)
		zv.Assert(b.Mark() == clip(before.mark, 1, len(b.String())+1), "replace-match keeps mark, clipped"+again)
		zv.Cover("replaced")
		return true
	}
	zv.Assert(err != nil, "replace-match fails when the matched text is not at that place any more"+again)
	zv.Assert(snap(b) == before, "a failed replace-match changes nothing"+again)
	zv.Cover("refused")
	return false
}

// Bounds: text up to 4 (thorough 5) bytes of "ab\n", every point and mark; any of the four searches, then replace-match with up to 1 (thorough 2) arbitrary bytes twice.
func P10_search_replace() {
	text := anyText(tq(4, 5), "ab\n")
	b := placed(text)
	s, e := aSearch(b, text)
	if zv.Bool("move") {
		n := len(text) + 1
		b.SetPoint(zv.IntRange("point2", 1, n))
		b.SetMark(zv.IntRange("mark2", 1, n))
	}
	if checkReplace(b, text[s:e], s, true, "") {
		checkReplace(b, text[s:e], s, false, " again")
	}
}

// Bounds: text up to 3 (thorough 4) bytes of "ab\n", every point and mark before and after the search; a search, one arbitrary edit
// (9 commands, counts 1..3, strings up to 2 bytes), replace-match.
func P10_edit_between() {
	text := anyText(tq(3, 4), "ab\n")
	b := edlisp.NewBuffer(text)
	b.SetPoint(1)
	pat := longStr("pattern", 2, "ab\n")
	zv.Assume(pat != "")
	_, err := do(b, "search-forward", str(pat))
	zv.Assume(err == nil)
	s := b.Point() - 1 - len(pat)
	b.SetPoint(anyPos("point", text))
	b.SetMark(anyPos("mark", text))
	_, err = run(b, anEdit("edit"))
	zv.Assert(err == nil, "the edit succeeds")
	checkReplace(b, pat, s, true, "")
}

// Bounds: text up to 3 bytes, every point and mark, no search or a failed search before replace-match; and a later successful search wins over an earlier one.
func P10_last_search_wins() {
	text := anyText(tq(3, 4), "ab\n")
	b := placed(text)
	first := anyStr("first", 1, "ab")
	_, err1 := do(b, "search-forward", str(first))
	s1, m1 := b.Point()-1-len(first), first
	second := anyStr("second", 2, "ab")
	_, err2 := do(b, []string{"search-forward", "search-backward"}[zv.Choose("dir", 2)], str(second))
	if err2 == nil {
		checkReplace(b, second, b.Point()-1-len(second), true, "")
		zv.Cover("second")
	} else if err1 == nil {
		checkReplace(b, m1, s1, true, "")
		zv.Cover("first")
	} else {
		checkReplace(b, "x", 0, false, "")
		zv.Cover("none")
	}
}

// findAny runs any of the four searches and returns the match it should have found, by the documented meaning of each.
func findAny(b *edlisp.Buffer, label string) (ok bool, s, e int) {
	text, p := b.String(), b.Point()-1
	kind := zv.Choose(label, 4)
	name := []string{"search-forward", "search-backward", "re-search-forward", "re-search-backward"}[kind]
	pat := ""
	if kind < 2 {
		pat = anyStr(label+" text", 2, "ab")
	} else {
		pat = []string{"a", "b", "[ab]+", "a*", "ab|b", "$"}[zv.Choose(label+" pattern", tq(4, 6))]
	}
	_, err := do(b, name, str(pat))
	s = -1
	switch kind {
	case 0:
		if i := strings.Index(text[p:], pat); i >= 0 {
			s, e = p+i, p+i+len(pat)
		}
	case 1:
		if i := strings.LastIndex(text[:p], pat); i >= 0 {
			s, e = i, i+len(pat)
		}
	case 2:
		if m := regexp.MustCompile(pat).FindStringIndex(text[p:]); m != nil {
			s, e = p+m[0], p+m[1]
		}
	case 3:
		if ms := regexp.MustCompile(pat).FindAllStringIndex(text[:p], -1); len(ms) > 0 {
			s, e = ms[len(ms)-1][0], ms[len(ms)-1][1]
		}
	}
	zv.Assume((err == nil) == (s >= 0)) // the searches' own properties
	return s >= 0, s, e
}

// Bounds: text up to 3 (thorough 4) bytes of "ab" and "_", every point and mark; two searches of any of the four kinds (strings of up to 2 bytes, 4 (thorough 6) regexps with matches of different lengths), point moved in between, then replace-match: it replaces what the last
// successful one found.
func P10_two_searches() {
	text := anyText(tq(3, 4), "ab_")
	b := placed(text)
	ok, s, e := findAny(b, "first")
	if zv.Bool("move") {
		b.SetPoint(anyPos("point2", text))
	}
	ok2, s2, e2 := findAny(b, "second")
	switch {
	case ok2:
		checkReplace(b, text[s2:e2], s2, true, "")
		zv.Cover("second")
	case ok:
		checkReplace(b, text[s:e], s, true, "")
		zv.Cover("first")
	default:
		checkReplace(b, "x", 0, false, "")
		zv.Cover("none")
	}
}

// fates are the texts that may stand where a match was found.
var fates = []string{"ab", "Ab", "aB", "AB", "a b", "ab ", " ab", "a\nb", "a", "b", "", "ba", "\u00e4b", "a\u0301b", "\u212ab", "kb", "Kb", "aa", "abab", "a\x00b", "\xffb", "ab\n", "abX"}

// Bounds: a match of 24 texts, found by a literal search or a regexp, alone or after and before up to 1 arbitrary byte of "aAb \n"; the text is then replaced by another of the 24, padded to the same length or not, at the same place or 1 or 2 later; replace-match succeeds exactly when the matched text is still there.
func P10_fates() {
	m, f := fates[zv.Choose("match", len(fates))], fates[zv.Choose("fate", len(fates))]
	zv.Assume(m != "")
	pre, post := zv.Str("pre", 1, "aAb \n"), zv.Str("post", 1, "aAb \n")
	text := pre + m + post
	b := edlisp.NewBuffer(text)
	if zv.Choose("regexp", 2) == 1 {
		_, err := do(b, "re-search-forward", str(regexp.QuoteMeta(m)))
		zv.Assume(err == nil)
	} else {
		_, err := do(b, "search-forward", str(m))
		zv.Assume(err == nil)
	}
	s := b.Point() - 1 - len(m)
	off := zv.Choose("offset", 3)
	if zv.Choose("padded", 2) == 1 {
		for len(f) < len(m) {
			f += "b"
		}
		f = f[:len(m)]
	}
	do(b, "mark-whole-buffer")
	_, err := do(b, "replace-region", str(pre+"-A"[:off]+f+post))
	zv.Assert(err == nil, "the text is replaced")
	checkReplace(b, m, s, true, "")
}
