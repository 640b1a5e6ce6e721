package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: text up to 4 (thorough 6) arbitrary bytes, every point and mark, inserted text up to 3 arbitrary bytes; via the script function and Buffer.Insert.
func P04_insert() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	ins := longStr("ins", 3, zv.Any)
	if zv.Bool("api") {
		b.Insert(ins)
		zv.Cover("Buffer.Insert")
	} else {
		_, err := do(b, "insert", str(ins))
		zv.Assert(err == nil, "insert of a string succeeds")
		zv.Cover("insert")
	}
	zv.Assert(b.String() == text[:pt-1]+ins+text[pt-1:], "insert puts exactly the text at point")
	zv.Assert(b.Point() == pt+len(ins), "point ends after the inserted text")
	zv.Assert(b.Mark() == mark, "insert leaves mark alone")
}

// Bounds: text up to 4 (thorough 6) arbitrary bytes, every point and mark, default count and every non-NaN float64 count.
func P04_delete_char() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	n := 1
	var args []edlisp.Value
	if zv.Bool("count") {
		f := anyFloat("n")
		args = append(args, num(f))
		n = clipFloat(f, 0, len(text)+1)
		zv.Cover("explicit count")
	}
	lo, hi := pt, pt
	back := zv.Bool("backward")
	var err error
	if back {
		lo = clip(pt-n, 1, pt)
		_, err = do(b, "delete-backward-char", args...)
		zv.Cover("backward")
	} else {
		hi = clip(pt+n, pt, len(text)+1)
		_, err = do(b, "delete-char", args...)
		zv.Cover("forward")
	}
	zv.Assert(err == nil, "character deletion succeeds")
	want := text[:lo-1] + text[hi-1:]
	zv.Assert(b.String() == want, "exactly the count characters after or before point are removed")
	zv.Assert(b.Point() == lo, "point ends at the start of the deleted text")
	zv.Assert(b.Mark() == clip(mark, 1, len(want)+1), "mark is unchanged, or clipped to the buffer")
}

// Bounds: text up to 4 (thorough 6) arbitrary bytes, every point and mark, replacement up to 3 arbitrary bytes.
func P04_region() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	lo, hi := pt, mark
	if lo > hi {
		lo, hi = hi, lo
	}
	repl := ""
	if zv.Bool("replace") {
		repl = longStr("repl", 3, zv.Any)
		_, err := do(b, "replace-region", str(repl))
		zv.Assert(err == nil, "replace-region succeeds")
		zv.Cover("replace-region")
	} else {
		_, err := do(b, "delete-region")
		zv.Assert(err == nil, "delete-region succeeds")
		zv.Cover("delete-region")
	}
	want := text[:lo-1] + repl + text[hi-1:]
	zv.Assert(b.String() == want, "exactly the region is replaced")
	zv.Assert(b.Point() == lo+len(repl), "point ends at the edit")
	zv.Assert(b.Mark() == clip(mark, 1, len(want)+1), "mark is unchanged, or clipped to the buffer")
}

// Bounds: a text of 3 arbitrary bytes, every point and mark; three (thorough four) edits out of insert and replace-region of nothing or 3 arbitrary bytes, delete-char, delete-backward-char and delete-region,
// compared with the text, point and mark computed from those before; the buffer is looked at after each or only after the last.
func P04_edits_in_a_row() {
	text := zv.StrN("text", 3, zv.Any)
	xyz, uvw := zv.StrN("ins", 3, zv.Any), zv.StrN("repl", 3, zv.Any)
	b := edlisp.NewBuffer(text)
	pt, mark := 1+zv.Choose("point", 4), 1+zv.Choose("mark", 4)
	b.SetPoint(pt)
	b.SetMark(mark)
	look := zv.Choose("look", 2) == 1
	for i := tq(3, 4); i > 0; i-- {
		lo, hi, ins := pt, pt, ""
		var err error
		switch k := zv.Choose("edit", 7); k {
		case 0, 1:
			ins = []string{"", xyz}[k]
			_, err = do(b, "insert", str(ins))
		case 2:
			hi = min(pt+2, len(text)+1)
			_, err = do(b, "delete-char", inum(2))
		case 3:
			lo = max(pt-2, 1)
			_, err = do(b, "delete-backward-char", inum(2))
		case 4:
			lo, hi = min(pt, mark), max(pt, mark)
			_, err = do(b, "delete-region")
		case 5, 6:
			lo, hi = min(pt, mark), max(pt, mark)
			ins = []string{"", uvw}[k-5]
			_, err = do(b, "replace-region", str(ins))
		}
		zv.Assert(err == nil, "edits succeed")
		text = text[:lo-1] + ins + text[hi-1:]
		pt = lo + len(ins)
		mark = min(mark, len(text)+1)
		if look {
			zv.Assert(snap(b) == state{text, pt, mark}, "an edit replaces exactly its span and leaves point at its end and mark where it was, or clipped")
		}
	}
	zv.Assert(snap(b) == state{text, pt, mark}, "a series of edits replaces exactly their spans and leaves point at its end and mark where it was, or clipped")
	zv.Cover("edited")
}
