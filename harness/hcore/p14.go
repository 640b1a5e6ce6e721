package hcore

import (
	"regexp"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

func boolSym(v edlisp.Value, want bool) bool {
	if want {
		return isSym(v, "t")
	}
	return isSym(v, "nil")
}

// Bounds: text up to 3 (thorough 4) bytes of "abA\n", every point; the pattern family of P09 (one or two atoms).
func P14_looking_at() {
	text := anyText(tq(3, 4), "abA\n")
	b := bufAt(text)
	p := b.Point() - 1
	pat := anyRegexp(!padded())
	m := regexp.MustCompile(pat).FindStringIndex(text[p:])
	v, err := do(b, "looking-at", str(pat))
	zv.Assert(err == nil, "looking-at succeeds")
	zv.Assert(boolSym(v, m != nil && m[0] == 0), "looking-at is t exactly when the leftmost match starts at point")
	if isSym(v, "t") {
		zv.Cover("t")
	} else {
		zv.Cover("nil")
	}
}

// Bounds: text up to 3 (thorough 4) bytes of "abA\n", every point; patterns of one or two context-free atoms,
// compared with a full match of every suffix of the text before point.
func P14_looking_back() {
	text := anyText(tq(3, 4), "abA\n")
	b := bufAt(text)
	p := b.Point() - 1
	atoms := []string{"a", ".", "[ab]", "[^a]", "(?i)a", "(a|ab)", `\n`, "(?s:.)", "ab|b", "^", "$", `\b`}
	ops := []string{"", "*", "+?", "?", "{2}"}
	a := zv.Choose("atom", len(atoms))
	pat := atoms[a]
	ctx := a >= 9
	if a < 8 {
		pat += ops[zv.Choose("op", len(ops))]
		if !padded() && zv.Bool("second") {
			pat += []string{"", "|"}[zv.Choose("join", 2)] + atoms[zv.Choose("atom2", 9)]
		}
	}
	want := false
	switch {
	case !ctx && padded():
		want = regexp.MustCompile(`(?:` + pat + `)\z`).MatchString(text[:p])
	case !ctx:
		re := regexp.MustCompile(`\A(?:` + pat + `)\z`)
		for i := p; i >= 0; i-- {
			if re.MatchString(text[i:p]) {
				want = true
				break
			}
		}
	case pat == "^":
		want = p == 0
	case pat == "$":
		want = true
	default:
		want = p > 0 && isWord(text[p-1])
	}
	v, err := do(b, "looking-back", str(pat))
	zv.Assert(err == nil, "looking-back succeeds")
	zv.Assert(boolSym(v, want), "looking-back is t exactly when some match ends at point")
	if want {
		zv.Cover("t")
	} else {
		zv.Cover("nil")
	}
}

// invalidPats are not valid regexps: they are compared literally.
var invalidPats = []string{"(", "[a", "*", "a(", "b**c(", `\`, "+a", "a)"}

// Bounds: text up to 4 (thorough 5) bytes over the characters of the 8 invalid patterns, every point.
func P14_literal_fallback() {
	pat := invalidPats[zv.Choose("pattern", len(invalidPats))]
	text := anyText(tq(4, 5), `a([*b\+)`)
	b := newBuf(text)
	p := b.Point() - 1
	var v edlisp.Value
	var err error
	switch zv.Choose("fn", 4) {
	case 0:
		v, err = do(b, "looking-at", str(pat))
		zv.Assert(err == nil && boolSym(v, hasAt(text, pat, p)), "looking-at compares an invalid regexp literally")
		zv.Cover("looking-at")
	case 1:
		v, err = do(b, "looking-back", str(pat))
		zv.Assert(err == nil && boolSym(v, hasAt(text[:p], pat, p-len(pat))), "looking-back compares an invalid regexp literally")
		zv.Cover("looking-back")
	case 2:
		v, err = do(b, "string-match", str(pat), str(text))
		if i := strings.Index(text, pat); i >= 0 {
			zv.Assert(err == nil && isNum(v, i), "string-match finds an invalid regexp literally")
			zv.Cover("string-match")
		} else {
			zv.Assert(err == nil && isSym(v, "nil"), "string-match returns nil without a literal match")
		}
	case 3:
		_, err = do(b, "replace-regexp-in-string", str(pat), str("x"), str(text))
		zv.Assert(err != nil, "replace-regexp-in-string rejects an invalid regexp")
		zv.Cover("replace")
	}
}

// Bounds: strings of up to 4 (thorough 5) bytes of "abA\n"; the pattern family of P09.
func P14_string_match() {
	s := longStr("s", tq(3, 4), "abA\n")
	pat := anyRegexp(!padded())
	v, err := strCall("string-match", str(pat), str(s))
	if m := regexp.MustCompile(pat).FindStringIndex(s); m != nil {
		zv.Assert(err == nil && isNum(v, m[0]), "string-match returns the 0-based start of the leftmost match")
		zv.Cover("found")
	} else {
		zv.Assert(err == nil && isSym(v, "nil"), "string-match returns nil without a match")
		zv.Cover("nil")
	}
}

// Bounds: strings of up to 3 (thorough 4) bytes of "abA\n", replacement of up to 2 bytes of "xy" or one of 5 templates; the one-atom pattern family.
func P14_replace_in_string() {
	s := longStr("s", tq(3, 4), "abA\n")
	pat := anyRegexp(false)
	re := regexp.MustCompile(pat)
	want, last := "", 0
	var repl string
	if zv.Bool("template") {
		repl = []string{"<$0>", "$1", "${1}x", "$$", "$x"}[zv.Choose("repl", 5)]
		for _, m := range re.FindAllStringSubmatchIndex(s, -1) {
			want += s[last:m[0]] + string(re.ExpandString(nil, repl, s, m))
			last = m[1]
		}
	} else {
		repl = zv.Str("repl", 2, "xy")
		for _, m := range re.FindAllStringIndex(s, -1) {
			want += s[last:m[0]] + repl
			last = m[1]
		}
	}
	want += s[last:]
	v, err := strCall("replace-regexp-in-string", str(pat), str(repl), str(s))
	zv.Assert(err == nil, "replace-regexp-in-string succeeds")
	zv.Assert(isStr(v, want), "replace-regexp-in-string replaces every successive match and nothing else")
	zv.Cover("replaced")
}
