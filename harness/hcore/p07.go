package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

func bol(s string, p int) int {
	for p > 0 && s[p-1] != '\n' {
		p--
	}
	return p
}

func eol(s string, p int) int {
	for p < len(s) && s[p] != '\n' {
		p++
	}
	return p
}

// lineSpan returns the end of n whole lines from p.
func lineSpan(s string, p, n int) int {
	for ; n > 0 && p < len(s); n-- {
		p = eol(s, p)
		if p < len(s) {
			p++
		}
	}
	return p
}

// Bounds: text up to 6 (thorough 8) arbitrary bytes, every point and mark.
func P07_line_ends() {
	text := anyText(tq(6, 8), zv.Any)
	b := newBuf(text)
	p, mark := b.Point()-1, b.Mark()
	if zv.Bool("end") {
		_, err := do(b, "end-of-line")
		zv.Assert(err == nil && b.Point() == eol(text, p)+1, "end-of-line stops exactly before the newline ending the line")
		zv.Cover("end-of-line")
	} else {
		_, err := do(b, "beginning-of-line")
		zv.Assert(err == nil && b.Point() == bol(text, p)+1, "beginning-of-line stops exactly after the newline before the line")
		zv.Cover("beginning-of-line")
	}
	zv.Assert(b.String() == text && b.Mark() == mark, "line motion leaves text and mark alone")
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark, every non-NaN float64 line number.
func P07_goto_line() {
	text := anyText(tq(5, 7), zv.Any)
	b := newBuf(text)
	mark := b.Mark()
	f := anyFloat("n")
	n := clipFloat(f, 1, len(text)+1)
	_, err := do(b, "goto-line", num(f))
	want := 0
	for i := 0; i < len(text) && n > 1; i++ {
		if text[i] == '\n' {
			want = i + 1
			n--
		}
	}
	zv.Assert(err == nil, "goto-line with a number succeeds")
	zv.Assert(b.Point() == want+1, "goto-line moves to the start of that line, or of the first or last one")
	zv.Assert(b.String() == text && b.Mark() == mark, "goto-line leaves text and mark alone")
	zv.Cover("goto-line")
}

// lineCount is an optional count: absent, small or extreme.
func lineCount(hi int) (args []edlisp.Value, n int) {
	switch zv.Choose("count kind", 3) {
	case 0:
		return nil, 1
	case 1:
		n = zv.IntRange("n", -1, hi)
		return []edlisp.Value{inum(n)}, n
	}
	ext := []float64{1e18, -1e300, 1e300, 150, 2.9, 0.5, -0.5, 1 << 63}
	f := ext[zv.Choose("extreme", len(ext))]
	return []edlisp.Value{num(f)}, clipFloat(f, -1000, 100000)
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark; absent, -1..4 and extreme counts.
func P07_mark_line() {
	text := anyText(tq(5, 7), zv.Any)
	b := newBuf(text)
	p := b.Point() - 1
	args, n := lineCount(4)
	_, err := do(b, "mark-line", args...)
	zv.Assert(err == nil && b.String() == text, "mark-line leaves text alone")
	if n >= 1 {
		zv.Assert(b.Mark() == bol(text, p)+1, "mark-line puts mark at the start of the current line")
		zv.Assert(b.Point() == lineSpan(text, p, n)+1, "mark-line puts point after exactly that many whole lines")
		zv.Cover("mark-line")
	}
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark; absent, -1..4 and extreme counts.
func P07_delete_line() {
	text := anyText(tq(5, 7), zv.Any)
	b := newBuf(text)
	p, mark := b.Point()-1, b.Mark()
	args, n := lineCount(4)
	_, err := do(b, "delete-line", args...)
	want, wpt := text, p+1
	if n >= 1 {
		s := bol(text, p)
		want, wpt = text[:s]+text[lineSpan(text, p, n):], s+1
		zv.Cover("delete-line")
	}
	zv.Assert(err == nil, "delete-line succeeds")
	zv.Assert(b.String() == want, "delete-line removes exactly that many whole lines from the current one")
	zv.Assert(b.Point() == wpt, "delete-line leaves point at the start of the deleted text")
	zv.Assert(b.Mark() == clip(mark, 1, len(want)+1), "delete-line keeps mark, clipped")
}

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark; absent, -1..4 and extreme counts; with count 1 point on a character boundary of valid UTF-8.
func P07_kill_line() {
	text := anyText(tq(5, 7), zv.Any)
	b := newBuf(text)
	p, mark := b.Point()-1, b.Mark()
	args, n := lineCount(4)
	want := text
	switch {
	case n == 1:
		zv.Assume(validUTF8(text) && boundary(text, p))
		if p < len(text) && text[p] != '\n' {
			want = text[:p+runeLenAt(text, p)] + text[eol(text, p):]
			zv.Cover("one line")
		} else {
			zv.Cover("nothing to kill")
		}
	case n > 1:
		want = text[:p] + text[lineSpan(text, p, n):]
		zv.Cover("several lines")
	}
	_, err := do(b, "kill-line", args...)
	zv.Assert(err == nil, "kill-line succeeds")
	zv.Assert(b.String() == want, "kill-line removes exactly the documented rest of the lines")
	zv.Assert(b.Point() == p+1, "kill-line leaves point alone")
	zv.Assert(b.Mark() == clip(mark, 1, len(want)+1), "kill-line keeps mark, clipped")
}
