package hcore

import (
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// counts are around sizes that code is likely to treat as limits.
var counts = []int{9, 10, 16, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 32768, 65536}

// aCount is one of the counts up to somewhat more than most, and the first above.
func aCount(most int) int {
	n := counts[zv.Choose("count", len(counts))]
	zv.Assume(n <= 2*most+10)
	return n
}

// manyBuf makes a buffer of n units with point at an end or after k of the units.
func manyBuf(unit string, n int) (*edlisp.Buffer, string, int) {
	text := strings.Repeat(unit, n)
	b := edlisp.NewBuffer(text)
	p := []int{0, 3 * len(unit), len(text) - 3*len(unit), len(text)}[zv.Choose("at", 4)]
	b.SetPoint(p + 1)
	return b, text, p
}

// Bounds: texts of 1100 (thorough 4200) bytes of 2 kinds, 4 points; counts of 9..8000 bytes: delete-char, delete-backward-char.
func P04_many() {
	n := tq(1100, 4200)
	b, text, p := manyBuf([]string{"a", "\n"}[zv.Choose("unit", 2)], n)
	k := aCount(n)
	if zv.Choose("backward", 2) == 1 {
		_, err := do(b, "delete-backward-char", inum(k))
		q := max(p-k, 0)
		zv.Assert(err == nil && b.String() == text[:q]+text[p:] && b.Point() == q+1, "delete-backward-char deletes count bytes")
	} else {
		_, err := do(b, "delete-char", inum(k))
		zv.Assert(err == nil && b.String() == text[:p]+text[min(p+k, n):] && b.Point() == p+1, "delete-char deletes count bytes")
	}
	zv.Cover("deleted")
}

// Bounds: texts of 1100 (thorough 4200) bytes of 2 kinds, 4 points; counts of 9..8000: forward-char, backward-char, goto-char.
func P05_many() {
	n := tq(1100, 4200)
	b, text, p := manyBuf([]string{"a", "\n"}[zv.Choose("unit", 2)], n)
	k := aCount(n)
	var err error
	want := 0
	switch zv.Choose("command", 3) {
	case 0:
		_, err = do(b, "forward-char", inum(k))
		want = min(p+k, n) + 1
	case 1:
		_, err = do(b, "backward-char", inum(k))
		want = max(p-k, 0) + 1
	case 2:
		_, err = do(b, "goto-char", inum(k))
		want = min(k, n+1)
	}
	zv.Assert(err == nil && b.Point() == want && b.String() == text, "character motion moves by its count, clipped")
	zv.Cover("moved")
}

// Bounds: texts of 1100 (thorough 4200) words of 2 kinds, 4 points; counts of 9..8000 words: forward-word, backward-word, kill-word, backward-kill-word.
func P06_many() {
	n := tq(1100, 4200)
	b, text, p := manyBuf([]string{"a ", "a\n"}[zv.Choose("unit", 2)], n)
	k := aCount(n)
	fwd := p
	if p < len(text) {
		if fwd = p + 2*k - 1; fwd > len(text)-1 {
			fwd = len(text)
			if k == (len(text)-p)/2 {
				fwd = len(text) - 1
			}
		}
	}
	back := max(p-2*k, 0)
	want, wp := text, p
	var err error
	switch zv.Choose("command", 4) {
	case 0:
		_, err = do(b, "forward-word", inum(k))
		wp = fwd
	case 1:
		_, err = do(b, "backward-word", inum(k))
		wp = back
	case 2:
		_, err = do(b, "kill-word", inum(k))
		want = text[:p] + text[fwd:]
	case 3:
		_, err = do(b, "backward-kill-word", inum(k))
		if back < p {
			want, wp = text[:back]+text[min(p+1, len(text)):], back
		}
	}
	zv.Assert(err == nil && b.Point() == wp+1, "word commands move across count words")
	zv.Assert(b.String() == want, "word commands delete exactly count words")
	zv.Cover("words")
}

// Bounds: texts of 1100 (thorough 4200) lines of 2 kinds, 4 points; counts of 9..8000 lines: goto-line, mark-line, delete-line, kill-line.
func P07_many() {
	n := tq(1100, 4200)
	unit := []string{"a\n", "\n"}[zv.Choose("unit", 2)]
	b, text, p := manyBuf(unit, n)
	k := aCount(n)
	end := min(p+k*len(unit), len(text))
	want, wp := text, p
	var err error
	switch zv.Choose("command", 4) {
	case 0:
		_, err = do(b, "goto-line", inum(k))
		wp = min((k-1)*len(unit), len(text))
	case 1:
		_, err = do(b, "mark-line", inum(k))
		zv.Assert(b.Mark() == p+1, "mark-line puts mark at the start of the current line")
		wp = end
	case 2:
		_, err = do(b, "delete-line", inum(k))
		want = text[:p] + text[end:]
	case 3:
		_, err = do(b, "kill-line", inum(k))
		want = text[:p] + text[end:]
	}
	zv.Assert(err == nil && b.Point() == wp+1, "line commands stop at the ends of lines")
	zv.Assert(b.String() == want, "line commands delete exactly count lines")
	zv.Cover("lines")
}

// Bounds: texts of 1100 (thorough 4200) bytes of 2 kinds, 4 points; positions of 9..8000: line-number-at-pos, buffer-substring.
func P12_many() {
	n := tq(1100, 4200)
	b, text, p := manyBuf([]string{"a", "\n"}[zv.Choose("unit", 2)], n)
	k := aCount(n)
	v, err := do(b, "line-number-at-pos")
	zv.Assert(err == nil && isNum(v, 1+strings.Count(text[:p], "\n")), "line-number-at-pos is one plus the newlines before point")
	v, err = do(b, "buffer-substring", inum(k), inum(n+1))
	zv.Assert(err == nil && isStr(v, text[min(k-1, n):]), "buffer-substring returns exactly the text")
	v, err = do(b, "buffer-substring", inum(1), inum(k))
	zv.Assert(err == nil && isStr(v, text[:min(k-1, n)]), "buffer-substring returns exactly the text")
	zv.Assert(b.String() == text && b.Point() == p+1, "queries change nothing")
	zv.Cover("queried")
}

// Bounds: strings of 1100 (thorough 4200) bytes; positions of 9..8000; concat of 9..1100 strings.
func P13_many() {
	n := tq(1100, 4200)
	text := strings.Repeat("ab", n/2)
	k := aCount(n)
	v, err := strCall("substring", str(text), inum(k))
	zv.Assert(err == nil && isStr(v, text[min(k-1, n):]), "substring is the clipped half-open slice")
	v, err = strCall("substring", str(text), inum(1), inum(k))
	zv.Assert(err == nil && isStr(v, text[:min(k-1, n)]), "substring is the clipped half-open slice")
	v, err = strCall("length", str(text[:min(k, n)]))
	zv.Assert(err == nil && isNum(v, min(k, n)), "length is the byte length")
	v, err = strCall("upcase", str(text[:min(k, n)]))
	zv.Assert(err == nil && isStr(v, strings.Repeat("AB", n/2)[:min(k, n)]), "upcase maps letters and changes nothing else")
	v, err = strCall("capitalize", str(text[:min(k, n)]))
	zv.Assert(err == nil && isStr(v, "A"+text[1:min(k, n)]), "capitalize upcases the first character and downcases the rest")
	if k <= 1100 {
		args := make([]edlisp.Value, k)
		for i := range args {
			args[i] = str("ab"[i%2 : i%2+1])
		}
		v, err = strCall("concat", args...)
		zv.Assert(err == nil && isStr(v, text[:k]), "concat joins its arguments in order")
		zv.Cover("concat")
	}
	zv.Cover("strings")
}
