package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

func hasAt(s, sub string, i int) bool {
	return i >= 0 && i+len(sub) <= len(s) && s[i:i+len(sub)] == sub
}

// afterSearch checks the buffer after a search that should have matched text[s:e], or failed (s < 0).
func afterSearch(b *edlisp.Buffer, before full, err error, s, e int) {
	text := before.text
	after := snapFull(b)
	zv.Assert(after.text == text && after.mark == before.mark, "a search leaves text and mark alone")
	if s < 0 {
		zv.Assert(err != nil, "a search without a match is an error")
		zv.Assert(after == before, "a failed search changes nothing")
		zv.Cover("not found")
		return
	}
	zv.Cover("found")
	zv.Assert(err == nil, "a search with a match succeeds")
	zv.Assert(after.pt == e+1, "point is at the end of the nearest match")
	if e > s {
		b.SetPoint(1 + zv.Choose("elsewhere", 2)*len(text))
		_, err = do(b, "replace-match", str("XY"))
		zv.Assert(err == nil && b.String() == text[:s]+"XY"+text[e:], "the match is remembered for replace-match")
	}
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark, search string up to 2 (thorough 4) arbitrary bytes, with and without an earlier match.
func P08_search_forward() {
	text := anyText(tq(5, 7), zv.Any)
	pat := longStr("pattern", tq(2, 4), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	before := snapFull(b)
	s := -1
	for i := b.Point() - 1; i+len(pat) <= len(text); i++ {
		if hasAt(text, pat, i) {
			s = i
			break
		}
	}
	_, err := do(b, "search-forward", str(pat))
	afterSearch(b, before, err, s, s+len(pat))
}

// Bounds: as P08_search_forward.
func P08_search_backward() {
	text := anyText(tq(5, 7), zv.Any)
	pat := longStr("pattern", tq(2, 4), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	before := snapFull(b)
	s := -1
	for i := b.Point() - 1 - len(pat); i >= 0; i-- {
		if hasAt(text, pat, i) {
			s = i
			break
		}
	}
	_, err := do(b, "search-backward", str(pat))
	afterSearch(b, before, err, s, s+len(pat))
}
