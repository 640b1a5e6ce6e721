package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// wordChars is an alphabet with one representative of every class the word
// commands distinguish, including the neighbours of the letter ranges.
const wordChars = "azAZ09 _-\n@[`{/:"

func isWord(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}

func fwdWord(s string, pos, n int) int {
	for ; n > 0 && pos < len(s); n-- {
		for pos < len(s) && !isWord(s[pos]) {
			pos++
		}
		for pos < len(s) && isWord(s[pos]) {
			pos++
		}
	}
	return pos
}

func backWord(s string, pos, n int) int {
	for ; n > 0 && pos > 0; n-- {
		for pos > 0 && !isWord(s[pos-1]) {
			pos--
		}
		for pos > 0 && isWord(s[pos-1]) {
			pos--
		}
	}
	return pos
}

func runeLenAt(s string, i int) int {
	if i >= len(s) {
		return 0
	}
	c := s[i]
	n := 1
	switch {
	case c >= 0xF0 && c <= 0xF4:
		n = 4
	case c >= 0xE0:
		n = 3
	case c >= 0xC2 && c < 0xE0:
		n = 2
	}
	if c < 0xC2 || c > 0xF4 || i+n > len(s) {
		return 1
	}
	return n
}

// wordCount is an optional count argument: absent, small, or extreme.
func wordCount(lim int) (args []edlisp.Value, n int) {
	switch zv.Choose("count kind", 3) {
	case 0:
		return nil, 1
	case 1:
		n = zv.IntRange("n", -2, lim)
		return []edlisp.Value{inum(n)}, n
	}
	ext := []float64{1e18, -1e300, 1e300, 150, 2.9, 0.5, -0.5, 1 << 62}
	f := ext[zv.Choose("extreme", len(ext))]
	return []edlisp.Value{num(f)}, clipFloat(f, -1000, 100000)
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark; absent, small (-2..4) and extreme counts.
func P06_word_motion() {
	text := anyText(tq(5, 7), zv.Any)
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	args, n := wordCount(4)
	var want int
	var err error
	if zv.Bool("backward") {
		want = backWord(text, pt-1, n) + 1
		_, err = do(b, "backward-word", args...)
		zv.Cover("backward")
	} else {
		want = fwdWord(text, pt-1, n) + 1
		_, err = do(b, "forward-word", args...)
		zv.Cover("forward")
	}
	zv.Assert(err == nil, "word motion succeeds")
	zv.Assert(b.Point() == want, "point is at the end or start of the count-th word, or the buffer end")
	zv.Assert(b.String() == text && b.Mark() == mark, "word motion leaves text and mark alone")
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark; absent, small and extreme counts.
func P06_kill_word() {
	text := anyText(tq(5, 7), zv.Any)
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	args, n := wordCount(4)
	end := fwdWord(text, pt-1, n)
	_, err := do(b, "kill-word", args...)
	zv.Assert(err == nil, "kill-word succeeds")
	want := text[:pt-1] + text[end:]
	zv.Assert(b.String() == want, "kill-word deletes exactly what forward-word would cross")
	zv.Assert(b.Point() == pt, "kill-word leaves point at the edit")
	zv.Assert(b.Mark() == clip(mark, 1, len(want)+1), "kill-word keeps mark, clipped")
	zv.Cover("kill-word")
}

// Bounds: valid UTF-8 text of up to 5 (thorough 6) bytes with point on a character boundary, every mark; absent, small and extreme counts.
func P06_backward_kill_word() {
	text := anyText(tq(5, 6), zv.Any)
	zv.Assume(validUTF8(text))
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	zv.Assume(boundary(text, pt-1))
	args, n := wordCount(3)
	start := backWord(text, pt-1, n)
	_, err := do(b, "backward-kill-word", args...)
	zv.Assert(err == nil, "backward-kill-word succeeds")
	want, wpt := text, pt
	if start < pt-1 {
		want, wpt = text[:start]+text[pt-1+runeLenAt(text, pt-1):], start+1
		zv.Cover("killed")
	}
	zv.Assert(b.String() == want, "backward-kill-word removes what backward-word would cross and the character at point, or nothing")
	zv.Assert(b.Point() == wpt, "point ends at the start of the deleted text")
	zv.Assert(b.Mark() == clip(mark, 1, len(want)+1), "backward-kill-word keeps mark, clipped")
	zv.Cover("backward-kill-word")
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark.
func P06_mark_word() {
	text := anyText(tq(5, 7), zv.Any)
	b := newBuf(text)
	p := b.Point() - 1
	_, err := do(b, "mark-word")
	zv.Assert(err == nil, "mark-word succeeds")
	zv.Assert(b.String() == text, "mark-word leaves text alone")
	if !(p < len(text) && isWord(text[p])) && !(p > 0 && isWord(text[p-1])) {
		for p < len(text) && !isWord(text[p]) {
			p++
		}
		if p == len(text) {
			zv.Assert(b.Point() == b.Mark() || b.Point() == p+1, "mark-word without a word at or after point selects no word")
			zv.Cover("no word")
			return
		}
		zv.Cover("next word")
	}
	s, e := p, p
	for s > 0 && isWord(text[s-1]) {
		s--
	}
	for e < len(text) && isWord(text[e]) {
		e++
	}
	zv.Assert(b.Mark() == s+1 && b.Point() == e+1, "mark-word selects the word containing or ending at point, else the next word")
	zv.Cover("word")
}
