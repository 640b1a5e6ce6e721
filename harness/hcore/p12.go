package hcore

import (
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: text up to 5 (thorough 7) arbitrary bytes, every point and mark, with and without a remembered match; all argumentless queries.
func P12_position_queries() {
	text := anyText(tq(5, 7), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	before := snapFull(b)
	pt, mark, n := before.pt, before.mark, len(text)
	q := []string{"point", "mark", "point-min", "point-max", "buffer-size", "line-number-at-pos", "region-beginning", "region-end"}[zv.Choose("query", 8)]
	v, err := do(b, q)
	want := 0
	switch q {
	case "point":
		want = pt
	case "mark":
		want = mark
	case "point-min":
		want = 1
	case "point-max":
		want = n + 1
	case "buffer-size":
		want = n
	case "line-number-at-pos":
		want = 1 + strings.Count(text[:pt-1], "\n")
	case "region-beginning":
		want = min(pt, mark)
	case "region-end":
		want = max(pt, mark)
	}
	zv.Assert(err == nil && isNum(v, want), q+" reports the real state")
	zv.Assert(snapFull(b) == before, q+" changes nothing")
	zv.Cover(q)
}

// Bounds: text up to 6 (thorough 8) arbitrary bytes, every point and mark.
func P12_current_column() {
	text := anyText(tq(6, 8), zv.Any)
	b := newBuf(text)
	before := snap(b)
	p := b.Point() - 1
	v, err := do(b, "current-column")
	zv.Assert(err == nil && snap(b) == before, "current-column changes nothing")
	x, ok := v.(*edlisp.Number)
	zv.Assert(ok, "current-column returns a number")
	want := p - bol(text, p)
	// recorded finding: the character at point is counted as well, nothing is
	// counted with point on a newline, and the end of the buffer counts as its last character
	q := min(p, len(text)-1)
	rec := 0
	for i := q; i >= 0 && text[i] != '\n'; i-- {
		rec++
	}
	if x.Value == float64(rec) && rec != want {
		zv.Known("current-column-counts-char-at-point")
		zv.Cover("known")
	} else {
		zv.Assert(x.Value == float64(want), "current-column is the distance of point from the start of its line")
		zv.Cover("distance")
	}
}

// Bounds: text up to 4 (thorough 5) arbitrary bytes, every point and mark; START and END small integers -2..n+3 or extreme values.
func P12_buffer_substring() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	before := snapFull(b)
	n := len(text)
	pos := func(l string) (edlisp.Value, int) {
		ext := []float64{0, 1e300, -1e300, 1.9, 1 << 63, -1.5}
		if k := zv.Choose(l+" kind", len(ext)); k > 0 {
			return num(ext[k]), clipFloat(ext[k], -1000, 1000000)
		}
		i := anyInt(l, -2, n+3)
		return inum(i), i
	}
	sv, s := pos("start")
	ev, e := pos("end")
	v, err := do(b, "buffer-substring", sv, ev)
	if e == -1 {
		e = n + 1
		zv.Cover("to the end")
	}
	s, e = clip(s, 1, n+1), clip(e, 1, n+1)
	want := ""
	if s < e {
		want = text[s-1 : e-1]
		zv.Cover("text")
	}
	zv.Assert(err == nil && isStr(v, want), "buffer-substring returns exactly the text between the clipped positions")
	zv.Assert(snapFull(b) == before, "buffer-substring changes nothing")
}

// Bounds: text up to 3 (thorough 4) arbitrary bytes, every point and mark, remembered match; 8 patterns, valid and invalid, and literals of up to 2 symbolic bytes.
func P12_looking_changes_nothing() {
	text := anyText(tq(3, 4), zv.Any)
	b := edlisp.NewBuffer(text)
	remember(b, 1)
	before := snapFull(b)
	name := []string{"looking-at", "looking-back", "string-match"}[zv.Choose("query", 3)]
	pats := []string{"", "a", "a*", ".", "$", "^", "(", `\b`}
	args := []edlisp.Value{str(pats[zv.Choose("pattern", len(pats))])}
	if name == "string-match" {
		args = append(args, str("ba"))
	}
	v, err := do(b, name, args...)
	zv.Assert(err == nil, name+" succeeds")
	if name != "string-match" {
		zv.Assert(isSym(v, "t") || isSym(v, "nil"), name+" returns t or nil")
	}
	zv.Assert(snapFull(b) == before, name+" changes nothing")
	zv.Cover(name)
}
