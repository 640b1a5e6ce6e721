package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: text up to 4 (thorough 6) arbitrary bytes, every point and mark, every float64 argument except NaN.
func P05_goto_char() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	mark := b.Mark()
	f := anyFloat("n")
	_, err := do(b, "goto-char", num(f))
	zv.Assert(err == nil, "goto-char with a number succeeds")
	zv.Assert(b.Point() == clipFloat(f, 1, len(text)+1), "goto-char moves to the truncated, clipped position")
	zv.Assert(b.String() == text && b.Mark() == mark, "goto-char leaves text and mark alone")
	zv.Cover("goto-char")
}

// Bounds: as P05_goto_char; default count and every non-NaN float64 count.
func P05_char_motion() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	mark, pt := b.Mark(), b.Point()
	back := zv.Bool("backward")
	name, dir := "forward-char", 1
	if back {
		name, dir = "backward-char", -1
	}
	var args []edlisp.Value
	want := pt + dir
	if zv.Bool("count") {
		f := anyFloat("n")
		args = append(args, num(f))
		lim := len(text) + 1
		want = pt + dir*clipFloat(f, -lim, lim)
		zv.Cover("explicit count")
	}
	_, err := do(b, name, args...)
	zv.Assert(err == nil, "character motion succeeds")
	zv.Assert(b.Point() == clip(want, 1, len(text)+1), "forward-char and backward-char move by the count, clipped")
	zv.Assert(b.String() == text && b.Mark() == mark, "character motion leaves text and mark alone")
	zv.Cover("motion")
}

// Bounds: text up to 4 (thorough 6) arbitrary bytes, every point and mark.
func P05_buffer_ends() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	mark := b.Mark()
	if zv.Bool("end") {
		_, err := do(b, "end-of-buffer")
		zv.Assert(err == nil && b.Point() == len(text)+1, "end-of-buffer moves to buffer-size+1")
	} else {
		_, err := do(b, "beginning-of-buffer")
		zv.Assert(err == nil && b.Point() == 1, "beginning-of-buffer moves to 1")
	}
	zv.Assert(b.String() == text && b.Mark() == mark, "buffer motion leaves text and mark alone")
	zv.Cover("buffer ends")
}
