package hcore

import (
	"regexp"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// anyRegexp makes a pattern of one or two atoms with an optional operator
// each, joined by concatenation or alternation; the atoms are literals, classes, anchors,
// word boundaries and groups. Or one of the odd patterns below.
func anyRegexp(two bool) string {
	atoms := []string{"a", ".", "[ab]", "[^a]", "^", "$", `\b`, "(?i)A", "(a|ab)", `\n`, "(?s).", "(?m)^"}
	ops := []string{"", "*", "+?", "?"}
	one := func(l string) string {
		a := atoms[zv.Choose(l, len(atoms))]
		switch a {
		case "^", "$", `\b`, "(?i)A", "(?m)^":
			return a
		}
		if l == "atom2" && zv.Tier() == 0 && a != "a" && a != "." {
			return a
		}
		return a + ops[zv.Choose(l+" op", len(ops))]
	}
	if zv.Bool("odd") {
		n := len(oddPats)
		if padded() {
			n = 8
		}
		return oddPats[zv.Choose("odd pattern", n)]
	}
	p := one("atom")
	if two {
		switch zv.Choose("join", 3) {
		case 1:
			p += one("atom2")
		case 2:
			p += "|" + one("atom2")
		}
	}
	return p
}

// oddPats are patterns that a change which rewrites, anchors, caches or quotes patterns may get wrong.
var oddPats = []string{
	"", `\Qa`, `a|\Qb`, `\Qa\Eb`, "^a|b", "a|^b", "a$|b", "a||b", "|a", "(?i)a|b", "(?-i)a|A", `\Aa`, `a\z`, `\pL+`, `\PL`,
	"[[:alpha:]]{2}", "(?U)a+", "(?P<n>a)b", `\x61`, "(?i)[^A]", ".*\n", "^$", "(?m)$", "(?m)^a|b$", `\B`, `\b.`, "(a*)*", "(|a)+",
	"(a|b)*?A", "(?s)a.b", "(?s:.)b", "[a\n]b", `a\nb`, "a{0}", "a{2,}", "(ab|a)(b)?", "(?m:^)b", "[^\n]+$", "(a)(b)?", "\n\n",
}

// Bounds: text up to 3 (thorough 4) bytes of "abA\n", every point and mark; patterns of one or two atoms (a family of about 3000, quick 1700) and 40 odd ones.
func P09_forward() {
	text := anyText(tq(3, 4), "abA\n")
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	p := b.Point() - 1
	before := snapFull(b)
	pat := anyRegexp(!padded())
	s, e := -1, -1
	if m := regexp.MustCompile(pat).FindStringIndex(text[p:]); m != nil {
		s, e = p+m[0], p+m[1]
	}
	_, err := do(b, "re-search-forward", str(pat))
	afterSearch(b, before, err, s, e)
}

// Bounds: as P09_forward.
func P09_backward() {
	text := anyText(tq(3, 4), "abA\n")
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	p := b.Point() - 1
	before := snapFull(b)
	pat := anyRegexp(!padded())
	s, e := -1, -1
	if ms := regexp.MustCompile(pat).FindAllStringIndex(text[:p], -1); len(ms) > 0 {
		m := ms[len(ms)-1]
		s, e = m[0], m[1]
	}
	_, err := do(b, "re-search-backward", str(pat))
	afterSearch(b, before, err, s, e)
}

// Bounds: text up to 3 (thorough 4) arbitrary bytes (valid and invalid UTF-8), every point; patterns of one atom.
func P09_any_bytes() {
	text := anyText(tq(3, 4), zv.Any)
	b := bufAt(text)
	p := b.Point() - 1
	before := snapFull(b)
	pats := []string{".", "a", "[^a]", "(?s).$", "é", `\xff?b`, "(?i)k"}
	pat := pats[zv.Choose("pattern", len(pats))]
	re := regexp.MustCompile(pat)
	s, e := -1, -1
	var err error
	if zv.Bool("backward") {
		if ms := re.FindAllStringIndex(text[:p], -1); len(ms) > 0 {
			m := ms[len(ms)-1]
			s, e = m[0], m[1]
		}
		_, err = do(b, "re-search-backward", str(pat))
	} else {
		if m := re.FindStringIndex(text[p:]); m != nil {
			s, e = p+m[0], p+m[1]
		}
		_, err = do(b, "re-search-forward", str(pat))
	}
	afterSearch(b, before, err, s, e)
}

// Bounds: text up to 3 arbitrary bytes, every point and mark, remembered match; literal patterns of 1 or 2 symbolic letters and
// every pattern of up to 2 bytes over "a([*\\+)" compared with its validity according to the regexp package.
func P09_invalid() {
	text := anyText(3, "a(*")
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	before := snapFull(b)
	pat := zv.ConcreteStr(zv.Str("pattern", tq(2, 3), `a([*\+)`))
	name := "re-search-forward"
	if zv.Bool("backward") {
		name = "re-search-backward"
	}
	_, err := do(b, name, str(pat))
	if _, bad := regexp.Compile(pat); bad != nil {
		zv.Assert(err != nil, "an invalid regexp is an error")
		zv.Cover("invalid")
	}
	after := snapFull(b)
	if err != nil {
		zv.Assert(after == before, "a failed regexp search changes nothing")
	} else {
		zv.Cover("valid")
	}
	zv.Assert(after.text == text && after.mark == before.mark, "a regexp search leaves text and mark alone")
}
