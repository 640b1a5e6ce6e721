package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: text up to 4 (thorough 6) arbitrary bytes, every point and mark; set-mark, set-mark-command without and with every non-NaN float64, exchange-point-and-mark, mark-whole-buffer.
func P11_mark_commands() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	n := len(text)
	var err error
	wp, wm := pt, mark
	switch zv.Choose("command", 5) {
	case 0:
		_, err = do(b, "set-mark")
		wm = pt
		zv.Cover("set-mark")
	case 1:
		_, err = do(b, "set-mark-command")
		wm = pt
		zv.Cover("set-mark-command")
	case 2:
		f := anyFloat("n")
		_, err = do(b, "set-mark-command", num(f))
		wm = clipFloat(f, 1, n+1)
		zv.Cover("set-mark-command N")
	case 3:
		_, err = do(b, "exchange-point-and-mark")
		wp, wm = mark, pt
		zv.Cover("exchange")
	case 4:
		_, err = do(b, "mark-whole-buffer")
		zv.Assert(min(b.Point(), b.Mark()) == 1 && max(b.Point(), b.Mark()) == n+1, "mark-whole-buffer spans the whole text")
		zv.Cover("whole")
		wp, wm = b.Point(), b.Mark()
	}
	zv.Assert(err == nil, "mark commands succeed")
	zv.Assert(b.Point() == wp, "mark commands put point where documented")
	zv.Assert(b.Mark() == wm, "mark commands put mark where documented")
	zv.Assert(b.String() == text, "mark commands leave text alone")
}

// Bounds: text up to 4 (thorough 6) arbitrary bytes, every point and mark; replacement up to 2 bytes.
func P11_region() {
	text := anyText(tq(4, 6), zv.Any)
	b := newBuf(text)
	pt, mark := b.Point(), b.Mark()
	lo, hi := min(pt, mark), max(pt, mark)
	v, err := do(b, "region-beginning")
	zv.Assert(err == nil && isNum(v, lo), "region-beginning is the smaller of point and mark")
	v, err = do(b, "region-end")
	zv.Assert(err == nil && isNum(v, hi), "region-end is the larger of point and mark")
	v, err = run(b, instr("buffer-substring", instr("region-beginning"), instr("region-end")))
	zv.Assert(err == nil && isStr(v, text[lo-1:hi-1]), "buffer-substring of the region is the region's text")
	zv.Assert(snap(b) == state{text, pt, mark}, "region queries change nothing")
	if zv.Bool("delete") {
		_, err = do(b, "delete-region")
		zv.Assert(err == nil && b.String() == text[:lo-1]+text[hi-1:], "delete-region removes exactly the region")
		zv.Cover("delete")
	} else {
		r := longStr("repl", 2, zv.Any)
		_, err = do(b, "replace-region", str(r))
		zv.Assert(err == nil && b.String() == text[:lo-1]+r+text[hi-1:], "replace-region replaces exactly the region")
		zv.Cover("replace")
	}
}

// Bounds: text up to 4 bytes, every point; a script that marks, moves by any small count and uses the region: set-mark; forward-char N; delete-region or buffer-substring.
func P11_script() {
	text := anyText(tq(4, 6), zv.Any)
	b := edlisp.NewBuffer(text)
	p := anyPos("from", text)
	n := zv.IntRange("n", -4, 4)
	q := clip(p+n, 1, len(text)+1)
	lo, hi := min(p, q), max(p, q)
	v, err := run(b, instr("goto-char", inum(p)), instr("set-mark"), instr("forward-char", inum(n)),
		instr("buffer-substring", instr("region-beginning"), instr("region-end")))
	zv.Assert(err == nil && isStr(v, text[lo-1:hi-1]), "the region spans what was crossed")
	_, err = run(b, instr("exchange-point-and-mark"), instr("delete-region"))
	zv.Assert(err == nil && b.String() == text[:lo-1]+text[hi-1:], "exchanging point and mark does not change the region")
	zv.Assert(b.Point() == lo, "delete-region leaves point at the start of the region")
	zv.Cover("script")
}
