package hcore

import (
	"regexp"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

var againTexts = []string{"ab ab\nab", "abab", "xab\nAB ab", "aab baab"}

// between moves point, edits or asks something between two searches; text and pt are kept in step.
func between(b *edlisp.Buffer, text string, pt, s, e int) (string, int) {
	at := func(p int) int {
		b.SetPoint(p + 1)
		return clip(p, 0, len(text))
	}
	ins := func(p int, t string) (string, int) {
		at(p)
		do(b, "insert", str(t))
		return text[:p] + t + text[p:], p + len(t)
	}
	switch zv.Choose("between", 11) {
	case 0:
		return text, pt
	case 1:
		return text, at(s)
	case 2:
		return text, at(e)
	case 3:
		return text, at(0)
	case 4:
		return text, at(len(text))
	case 5:
		return text, at(s + 1)
	case 6:
		return ins(s, "ab")
	case 7:
		return ins(0, "x")
	case 8:
		return ins(len(text), "ab")
	case 9:
		at(s)
		do(b, "delete-char", inum(1))
		return text[:s] + text[s+1:], s
	}
	do(b, "looking-at", str("ab"))
	return text, pt
}

func findForward(text string, pt int, pat string) (int, int) {
	if i := strings.Index(text[pt:], pat); i >= 0 {
		return pt + i, pt + i + len(pat)
	}
	return -1, -1
}

func findBackward(text string, pt int, pat string) (int, int) {
	i := strings.LastIndex(text[:pt], pat)
	return i, i + len(pat)
}

// Bounds: 4 texts of up to 9 bytes, both ends; three (thorough four) literal searches in either direction for one of 3 strings of 1..2 bytes, each after one of 11 moves, edits or queries that follow the one before.
func P08_again() {
	text := againTexts[zv.Choose("text", len(againTexts))]
	b := edlisp.NewBuffer(text)
	pt := zv.Choose("at", 2) * len(text)
	b.SetPoint(pt + 1)
	pats := []string{"ab", "ba", "b"}
	pat := ""
	for i := tq(3, 4); i > 0; i-- {
		if pat == "" || zv.Choose("other", 2) == 1 {
			pat = pats[zv.Choose("pattern", len(pats))]
		}
		name, s, e := "search-forward", 0, 0
		if zv.Choose("backward", 2) == 1 {
			name = "search-backward"
			s, e = findBackward(text, pt, pat)
		} else {
			s, e = findForward(text, pt, pat)
		}
		_, err := do(b, name, str(pat))
		if s < 0 {
			zv.Assert(err != nil && b.Point() == pt+1 && b.String() == text, "a failed search changes nothing")
			zv.Cover("not found")
			return
		}
		zv.Assert(err == nil && b.Point() == e+1 && b.String() == text, "each of several searches finds the nearest match")
		zv.Cover("found")
		pt = e
		if i > 1 {
			text, pt = between(b, text, pt, s, e)
		} else {
			_, err = do(b, "replace-match", str("XY"))
			zv.Assert(err == nil && b.String() == text[:s]+"XY"+text[e:], "the last match is remembered for replace-match")
		}
	}
	zv.Cover("all")
}

func reForward(text string, pt int, pat string) (int, int) {
	if m := regexp.MustCompile(pat).FindStringIndex(text[pt:]); m != nil {
		return pt + m[0], pt + m[1]
	}
	return -1, -1
}

func reBackward(text string, pt int, pat string) (int, int) {
	if ms := regexp.MustCompile(pat).FindAllStringIndex(text[:pt], -1); len(ms) > 0 {
		return ms[len(ms)-1][0], ms[len(ms)-1][1]
	}
	return -1, -1
}

// Bounds: as P08_again with one of 3 regexps.
func P09_again() {
	text := againTexts[zv.Choose("text", len(againTexts))]
	b := edlisp.NewBuffer(text)
	pt := zv.Choose("at", 2) * len(text)
	b.SetPoint(pt + 1)
	pats := []string{"ab", "^ab", "[ab]+"}
	pat := ""
	for i := tq(3, 4); i > 0; i-- {
		if pat == "" || zv.Choose("other", 2) == 1 {
			pat = pats[zv.Choose("pattern", len(pats))]
		}
		name, s, e := "re-search-forward", 0, 0
		if zv.Choose("backward", 2) == 1 {
			name = "re-search-backward"
			s, e = reBackward(text, pt, pat)
		} else {
			s, e = reForward(text, pt, pat)
		}
		_, err := do(b, name, str(pat))
		if s < 0 {
			zv.Assert(err != nil && b.Point() == pt+1 && b.String() == text, "a failed search changes nothing")
			zv.Cover("not found")
			return
		}
		zv.Assert(err == nil && b.Point() == e+1 && b.String() == text, "each of several searches finds the nearest match")
		zv.Cover("found")
		pt = e
		if i > 1 {
			text, pt = between(b, text, pt, s, e)
		} else {
			_, err = do(b, "replace-match", str("XY"))
			zv.Assert(err == nil && b.String() == text[:s]+"XY"+text[e:], "the last match is remembered for replace-match")
		}
	}
	zv.Cover("all")
}

// Bounds: 4 texts of up to 9 bytes, both ends; three (thorough four) searches, literal or by regexp, in either direction for one of 2 patterns, each followed by replace-match with one of 3 strings and one of 11 moves, edits or queries.
func P10_again() {
	text := againTexts[zv.Choose("text", len(againTexts))]
	b := edlisp.NewBuffer(text)
	pt := zv.Choose("at", 2) * len(text)
	b.SetPoint(pt + 1)
	for i := tq(2, 3); i > 0; i-- {
		pat := []string{"ab", "b"}[zv.Choose("pattern", 2)]
		repl := []string{"ab", "", "XYZ"}[zv.Choose("replacement", 3)]
		name, s, e := "", 0, 0
		switch zv.Choose("search", 4) {
		case 0:
			name = "search-forward"
			s, e = findForward(text, pt, pat)
		case 1:
			name = "search-backward"
			s, e = findBackward(text, pt, pat)
		case 2:
			name = "re-search-forward"
			s, e = reForward(text, pt, pat)
		case 3:
			name = "re-search-backward"
			s, e = reBackward(text, pt, pat)
		}
		_, err := do(b, name, str(pat))
		zv.Assert((err == nil) == (s >= 0), "a search succeeds when there is a match")
		zv.Assume(s >= 0)
		if zv.Choose("away", 2) == 1 {
			do(b, "beginning-of-buffer")
		}
		_, err = do(b, "replace-match", str(repl))
		text = text[:s] + repl + text[e:]
		pt = s + len(repl)
		zv.Assert(err == nil && b.String() == text, "replace-match replaces exactly the matched text where it was found")
		zv.Assert(b.Point() == pt+1, "replace-match leaves point after the replacement")
		zv.Cover("replaced")
		if i > 1 {
			zv.Assume(len(text) > 1)
			text, pt = between(b, text, pt, clip(s, 0, len(text)-1), clip(s+1, 0, len(text)))
		}
	}
}

// Bounds: 4 texts of up to 9 bytes; two (thorough three) of looking-at, looking-back and string-match with one of 3 regexps at any of 4 points, with one of 11 moves, edits or queries before each.
func P14_again() {
	text := againTexts[zv.Choose("text", len(againTexts))]
	b := edlisp.NewBuffer(text)
	pt := 0
	for i := tq(2, 3); i > 0; i-- {
		pat := []string{"ab", "^ab$", "[ab]+"}[zv.Choose("pattern", 3)]
		re := regexp.MustCompile(pat)
		text, pt = between(b, text, pt, min(2, len(text)-1), min(4, len(text)))
		switch zv.Choose("function", 3) {
		case 0:
			m := re.FindStringIndex(text[pt:])
			v, err := do(b, "looking-at", str(pat))
			zv.Assert(err == nil && boolSym(v, m != nil && m[0] == 0), "looking-at is t exactly when the leftmost match starts at point")
		case 1:
			v, err := do(b, "looking-back", str(pat))
			zv.Assert(err == nil && boolSym(v, regexp.MustCompile(`(?:`+pat+`)\z`).MatchString(text[:pt])), "looking-back is t exactly when some match ends at point")
		case 2:
			v, err := do(b, "string-match", str(pat), str(text))
			if m := re.FindStringIndex(text); m != nil {
				zv.Assert(err == nil && isNum(v, m[0]), "string-match returns the 0-based start of the leftmost match")
			} else {
				zv.Assert(err == nil && isSym(v, "nil"), "string-match returns nil without a match")
			}
		}
	}
	zv.Assert(b.String() == text && b.Point() == pt+1, "regexp queries change nothing")
	zv.Cover("asked")
}
