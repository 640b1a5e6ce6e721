package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// uText makes valid UTF-8 text of at most n bytes.
func uText(label string, n int) string {
	s := anyStr(label, n, zv.Any)
	zv.Assume(validUTF8(s))
	return s
}

// onBoundary puts point and mark at arbitrary character boundaries.
func onBoundary(b *edlisp.Buffer, text string) {
	b.SetPoint(anyPos("point", text))
	b.SetMark(anyPos("mark", text))
	zv.Assume(boundary(text, b.Point()-1) && boundary(text, b.Mark()-1))
}

// Bounds: valid UTF-8 text of up to 4 (thorough 5) bytes, point and mark at every pair of character boundaries; every search, motion and mark command
// with valid UTF-8 strings of up to 2 bytes (4 regexps): point and mark stay on character boundaries.
func P27_motions_stay_on_boundaries() {
	text := anyText(tq(4, 5), zv.Any)
	zv.Assume(validUTF8(text))
	b := edlisp.NewBuffer(text)
	onBoundary(b, text)
	var in edlisp.Value
	c := zv.Choose("command", 18)
	switch c {
	case 0:
		in = instr("search-forward", str(uText("s", 2)))
	case 1:
		in = instr("search-backward", str(uText("s", 2)))
	case 2, 3:
		rx := []string{".", "[^a]$", "é?", "a*b"}
		in = instr([]string{"re-search-forward", "re-search-backward"}[c-2], str(rx[zv.Choose("rx", len(rx))]))
	case 4, 5:
		in = instr([]string{"forward-word", "backward-word"}[c-4], inum(anyInt("n", -1, 2)))
	case 6, 7, 8, 9, 10, 11, 12, 13:
		in = instr([]string{"beginning-of-line", "end-of-line", "beginning-of-buffer", "end-of-buffer", "set-mark", "exchange-point-and-mark", "mark-whole-buffer", "mark-word"}[c-6])
	case 14:
		in = instr("goto-line", inum(anyInt("n", 0, 3)))
	case 15:
		in = instr("mark-line", inum(anyInt("n", 1, 2)))
	case 16:
		in = instr("set-mark-command")
	case 17:
		in = list(sym("goto-char"), instr([]string{"mark", "region-beginning", "region-end", "point-max"}[zv.Choose("pos", 4)]))
	}
	_, err := run(b, in)
	zv.Assert(b.String() == text, "searches, motions and mark commands leave text alone")
	zv.Assert(boundary(text, b.Point()-1), "point never lands inside a character")
	zv.Assert(boundary(text, b.Mark()-1), "mark never lands inside a character")
	if err == nil {
		zv.Cover("moved")
	}
}

// Bounds: valid UTF-8 text of up to 4 (thorough 5) bytes, point and mark at every pair of character boundaries; every word, line and region edit,
// insert and search-and-replace with valid UTF-8 strings of up to 2 bytes: the text stays valid and point on a boundary.
func P27_edits_keep_text_valid() {
	text := anyText(tq(4, 5), zv.Any)
	zv.Assume(validUTF8(text))
	b := edlisp.NewBuffer(text)
	onBoundary(b, text)
	var prog []edlisp.Value
	switch c := zv.Choose("command", 9); c {
	case 0:
		prog = append(prog, instr("insert", str(uText("s", 2))))
	case 1:
		prog = append(prog, instr("delete-region"))
	case 2:
		prog = append(prog, instr("replace-region", str(uText("s", 2))))
	case 3, 4:
		prog = append(prog, instr([]string{"kill-word", "backward-kill-word"}[c-3], inum(anyInt("n", -1, 2))))
	case 5, 6:
		prog = append(prog, instr([]string{"kill-line", "delete-line"}[c-5], inum(anyInt("n", -1, 2))))
	case 7:
		prog = append(prog, instr([]string{"search-forward", "search-backward"}[zv.Choose("dir", 2)], str(uText("p", 2))), instr("replace-match", str(uText("s", 2))))
	case 8:
		prog = append(prog, instr([]string{"re-search-forward", "re-search-backward"}[zv.Choose("dir", 2)], str(".")), instr("replace-match", str(uText("s", 2))))
	}
	_, err := run(b, prog...)
	out := b.String()
	zv.Assert(validUTF8(out), "edits at character boundaries keep the text valid UTF-8")
	zv.Assert(boundary(out, b.Point()-1), "edits leave point on a character boundary")
	if err == nil {
		zv.Cover("edited")
	}
}

// Bounds: every valid UTF-8 string of up to 4 bytes (quick: one character of up to 3 bytes, alone or before the letter Z).
func P27_case_conversion() {
	s := zv.Str("s", 4, zv.Any)
	if zv.Tier() == 0 && len(s) > 0 {
		n := seqLen(s, 0)
		zv.Assume(n > 0 && n < 4 && len(s) <= n+1)
		zv.Assume(len(s) == n || s[n] == 'Z')
	} else {
		zv.Assume(validUTF8(s))
	}
	v, err := strCall([]string{"upcase", "downcase", "capitalize"}[zv.Choose("fn", 3)], str(s))
	zv.Assert(err == nil, "case conversion succeeds")
	x, ok := v.(*edlisp.String)
	zv.Assert(ok && validUTF8(x.Value), "case conversion keeps valid UTF-8")
	zv.Cover("converted")
}
