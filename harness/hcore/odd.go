package hcore

import (
	"errors"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/odd"
	"github.com/dhamidi/texted/zzverif/zv"
)

// oddBuf makes a buffer holding text with point at one of 3 places and mark at one of 2.
func oddBuf(text string) *edlisp.Buffer {
	b := edlisp.NewBuffer(text)
	b.SetPoint([]int{1, len(text)/2 + 1, len(text) + 1}[zv.Choose("point", 3)])
	b.SetMark([]int{1, len(text) + 1}[zv.Choose("mark", 2)])
	return b
}

// Bounds: texts and inserted or replacing texts out of 200 strings of odd content (pairs of one of them and one of 13 of them, thorough all pairs), 3 points, 2 marks; insert, Buffer.Insert, replace-region, delete-region, delete-char, delete-backward-char.
func P04_odd() {
	text, ins := odd.Pair("text")
	b := oddBuf(text)
	pt, mark := b.Point(), b.Mark()
	lo, hi := pt, pt
	var err error
	switch zv.Choose("edit", 6) {
	case 0:
		_, err = do(b, "insert", str(ins))
	case 1:
		b.Insert(ins)
	case 2:
		_, err = do(b, "replace-region", str(ins))
		lo, hi = min(pt, mark), max(pt, mark)
	case 3:
		_, err = do(b, "delete-region")
		lo, hi, ins = min(pt, mark), max(pt, mark), ""
	case 4:
		_, err = do(b, "delete-char", inum(2))
		hi, ins = min(pt+2, len(text)+1), ""
	case 5:
		_, err = do(b, "delete-backward-char", inum(2))
		lo, ins = max(pt-2, 1), ""
	}
	want := text[:lo-1] + ins + text[hi-1:]
	zv.Assert(err == nil && b.String() == want, "an edit replaces exactly its span")
	zv.Assert(b.Point() == lo+len(ins), "point ends at the edit")
	zv.Assert(b.Mark() == clip(mark, 1, len(want)+1), "mark is unchanged, or clipped to the buffer")
	zv.Cover("edited")
}

// Bounds: each of 200 strings of odd content before, after and between words; 3 points; the five word commands with counts 1 and 2 (backward-kill-word only at character boundaries of valid UTF-8).
func P06_odd() {
	s := odd.Str("text")
	text := []string{s, s + "ab", "ab" + s + "ab c", "a " + s + " b"}[zv.Choose("around", 4)]
	b := oddBuf(text)
	p := b.Point() - 1
	n := 1 + zv.Choose("count", 2)
	var err error
	want, wp := text, p
	switch zv.Choose("command", 5) {
	case 0:
		_, err = do(b, "forward-word", inum(n))
		wp = fwdWord(text, p, n)
	case 1:
		_, err = do(b, "backward-word", inum(n))
		wp = backWord(text, p, n)
	case 2:
		_, err = do(b, "kill-word", inum(n))
		want = text[:p] + text[fwdWord(text, p, n):]
	case 3:
		zv.Assume(validUTF8(text) && boundary(text, p))
		_, err = do(b, "backward-kill-word", inum(n))
		if q := backWord(text, p, n); q < p {
			want, wp = text[:q]+text[p+runeLenAt(text, p):], q
		}
	case 4:
		q := p
		for q < len(text) && !isWord(text[q]) && (q == 0 || !isWord(text[q-1])) {
			q++
		}
		wp = q
		for wp < len(text) && isWord(text[wp]) {
			wp++
		}
		for q > 0 && isWord(text[q-1]) {
			q--
		}
		_, err = do(b, "mark-word")
		zv.Assert(q == wp || b.Mark() == q+1, "mark-word puts mark at the start of the word")
	}
	zv.Assert(err == nil && b.String() == want, "word commands delete exactly what they cross")
	zv.Assert(b.Point() == wp+1, "word commands stop at the ends of words")
	zv.Cover("words")
}

// Bounds: each of 200 strings of odd content as a line, before, after and between others; 3 points; the line commands with counts 1 and 2.
func P07_odd() {
	s := odd.Str("text")
	text := []string{s, s + "\nab", "ab\n" + s + "\ncd\n", "a" + s + "b\r\nc"}[zv.Choose("around", 4)]
	b := oddBuf(text)
	p := b.Point() - 1
	n := 1 + zv.Choose("count", 2)
	var err error
	want, wp := text, p
	switch zv.Choose("command", 6) {
	case 0:
		_, err = do(b, "beginning-of-line")
		wp = bol(text, p)
	case 1:
		_, err = do(b, "end-of-line")
		wp = eol(text, p)
	case 2:
		_, err = do(b, "goto-line", inum(n))
		wp = 0
		if i := strings.IndexByte(text, '\n'); n == 2 && i >= 0 {
			wp = i + 1
		}
	case 3:
		_, err = do(b, "mark-line", inum(n))
		wp = lineSpan(text, p, n)
		zv.Assert(b.Mark() == bol(text, p)+1, "mark-line puts mark at the start of the current line")
	case 4:
		_, err = do(b, "delete-line", inum(n))
		wp = bol(text, p)
		want = text[:wp] + text[lineSpan(text, p, n):]
	case 5:
		zv.Assume(n > 1 || validUTF8(text) && boundary(text, p))
		_, err = do(b, "kill-line", inum(n))
		if n > 1 {
			want = text[:p] + text[lineSpan(text, p, n):]
		} else if p < len(text) && text[p] != '\n' {
			want = text[:p+runeLenAt(text, p)] + text[eol(text, p):]
		}
	}
	zv.Assert(err == nil && b.String() == want, "line commands delete exactly their lines")
	zv.Assert(b.Point() == wp+1, "line commands stop at the ends of lines")
	zv.Cover("lines")
}

// Bounds: each of 200 strings of odd content as text to search for in 21 texts that are nearly it, alone or twice around another, 3 points.
func P08_odd() {
	pat := odd.Str("pattern")
	text := odd.NearOne("text", pat)
	if zv.Choose("twice", 2) == 1 {
		text = text + "-" + pat + "-" + text
	}
	b := oddBuf(text)
	before := snapFull(b)
	p, s := b.Point()-1, -1
	var err error
	if zv.Choose("backward", 2) == 1 {
		s = strings.LastIndex(text[:p], pat)
		_, err = do(b, "search-backward", str(pat))
	} else {
		if s = strings.Index(text[p:], pat); s >= 0 {
			s += p
		}
		_, err = do(b, "search-forward", str(pat))
	}
	afterSearch(b, before, err, s, s+len(pat))
}

// Bounds: each of 200 strings of odd content as a regexp, or quoted, in 21 texts that are nearly it, alone or twice around another, 3 points.
func P09_odd() {
	pat := odd.Str("pattern")
	text := odd.NearOne("text", pat)
	if zv.Choose("twice", 2) == 1 {
		text = text + "-" + pat + "-" + text
	}
	if zv.Choose("quoted", 2) == 1 {
		pat = regexp.QuoteMeta(pat)
	}
	b := oddBuf(text)
	before := snapFull(b)
	p, s, e := b.Point()-1, -1, -1
	var err error
	re, bad := regexp.Compile(pat)
	if zv.Choose("backward", 2) == 1 {
		if bad == nil {
			if ms := re.FindAllStringIndex(text[:p], -1); len(ms) > 0 {
				s, e = ms[len(ms)-1][0], ms[len(ms)-1][1]
			}
		}
		_, err = do(b, "re-search-backward", str(pat))
	} else {
		if bad == nil {
			if m := re.FindStringIndex(text[p:]); m != nil {
				s, e = p+m[0], p+m[1]
			}
		}
		_, err = do(b, "re-search-forward", str(pat))
	}
	afterSearch(b, before, err, s, e)
}

// Bounds: matches and replacements out of 200 strings of odd content (pairs of one of them and one of 13, thorough all pairs), found by a literal search or a regexp, alone, after or between others.
func P10_odd() {
	m, repl := odd.Pair("match")
	zv.Assume(m != "")
	pre, post := []string{"", "a", "\n"}[zv.Choose("pre", 3)], []string{"", "\nb"}[zv.Choose("post", 2)]
	text := pre + m + post
	b := edlisp.NewBuffer(text)
	b.SetMark(len(text) + 1)
	if zv.Choose("regexp", 2) == 1 {
		_, err := do(b, "re-search-forward", str(regexp.QuoteMeta(m)))
		zv.Assume(err == nil)
	} else {
		_, err := do(b, "search-forward", str(m))
		zv.Assume(err == nil)
	}
	s := b.Point() - 1 - len(m)
	_, err := do(b, "replace-match", str(repl))
	want := text[:s] + repl + text[s+len(m):]
	zv.Assert(err == nil && b.String() == want, "replace-match replaces exactly the matched text where it was found")
	zv.Assert(b.Point() == s+len(repl)+1 && b.Mark() == clip(len(text)+1, 1, len(want)+1), "replace-match leaves point after the replacement and keeps mark, clipped")
	zv.Cover("replaced")
}

// Bounds: each of 200 strings of odd content before, after and between others, 3 points, 2 marks.
func P12_odd() {
	s := odd.Str("text")
	text := []string{s, s + "\nab", "ab\n" + s + "cd\n", "a" + s + "b\r\nc"}[zv.Choose("around", 4)]
	b := oddBuf(text)
	before := snapFull(b)
	p, mark := b.Point(), b.Mark()
	is := func(name string, n int) {
		v, err := do(b, name)
		zv.Assert(err == nil && isNum(v, n), name+" reports the real state")
	}
	is("point", p)
	is("mark", mark)
	is("point-min", 1)
	is("point-max", len(text)+1)
	is("buffer-size", len(text))
	is("line-number-at-pos", 1+strings.Count(text[:p-1], "\n"))
	is("region-beginning", min(p, mark))
	is("region-end", max(p, mark))
	v, err := do(b, "buffer-substring", inum(p), inum(-1))
	zv.Assert(err == nil && isStr(v, text[p-1:]), "buffer-substring returns exactly the text")
	v, err = do(b, "buffer-substring", inum(1), inum(p))
	zv.Assert(err == nil && isStr(v, text[:p-1]), "buffer-substring returns exactly the text")
	zv.Assert(snapFull(b) == before, "queries change nothing")
	zv.Cover("queried")
}

func mapRunes(s string, f func(rune) rune) string {
	out := ""
	for _, r := range s {
		out += string(f(r))
	}
	return out
}

// Bounds: each of 200 strings of odd content and pairs of one of them and one of 13 (thorough all pairs); case functions on valid UTF-8.
func P13_odd() {
	s, s2 := odd.Pair("s")
	v, err := strCall("length", str(s))
	zv.Assert(err == nil && isNum(v, len(s)), "length is the byte length")
	v, err = strCall("concat", str(s), str(s2), str(s))
	zv.Assert(err == nil && isStr(v, s+s2+s), "concat joins its arguments in order")
	v, err = strCall("substring", str(s+s2), inum(len(s)+1))
	zv.Assert(err == nil && isStr(v, s2), "substring is the clipped half-open slice")
	v, err = strCall("substring", str(s+s2), inum(1), inum(len(s)+1))
	zv.Assert(err == nil && isStr(v, s), "substring is the clipped half-open slice")
	if t := s + s2; validUTF8(t) {
		v, err = strCall("upcase", str(t))
		zv.Assert(err == nil && isStr(v, mapRunes(t, unicode.ToUpper)), "upcase maps letters and changes nothing else")
		v, err = strCall("downcase", str(t))
		zv.Assert(err == nil && isStr(v, mapRunes(t, unicode.ToLower)), "downcase maps letters and changes nothing else")
		_, n := utf8.DecodeRuneInString(t)
		v, err = strCall("capitalize", str(t))
		zv.Assert(err == nil && isStr(v, mapRunes(t[:n], unicode.ToUpper)+mapRunes(t[n:], unicode.ToLower)), "capitalize upcases the first character and downcases the rest")
		zv.Cover("case")
	}
	zv.Cover("strings")
}

// Bounds: each of 200 strings of odd content as a regexp, or quoted, in 21 texts that are nearly it, alone or around another, 3 points; looking-at, looking-back (quoted and invalid ones), string-match.
func P14_odd() {
	pat := odd.Str("pattern")
	lit := pat
	text := odd.NearOne("text", pat)
	if zv.Choose("twice", 2) == 1 {
		text = text + pat + text
	}
	quoted := zv.Choose("quoted", 2) == 1
	if quoted {
		pat = regexp.QuoteMeta(pat)
	}
	re, bad := regexp.Compile(pat)
	find := func(s string) int {
		if bad != nil {
			return strings.Index(s, pat)
		}
		if m := re.FindStringIndex(s); m != nil {
			return m[0]
		}
		return -1
	}
	b := edlisp.NewBuffer(text)
	b.SetPoint([]int{1, len(text)/2 + 1, len(text) + 1}[zv.Choose("point", 3)])
	p := b.Point() - 1
	v, err := do(b, "looking-at", str(pat))
	want := find(text[p:]) == 0
	zv.Assert(err == nil && boolSym(v, want), "looking-at is t exactly when the leftmost match starts at point")
	if quoted && validUTF8(lit) && validUTF8(text[:p]) || bad != nil {
		v, err = do(b, "looking-back", str(pat))
		zv.Assert(err == nil && boolSym(v, strings.HasSuffix(text[:p], lit)), "looking-back is t exactly when some match ends at point")
		zv.Cover("back")
	}
	v, err = strCall("string-match", str(pat), str(text))
	if i := find(text); i >= 0 {
		zv.Assert(err == nil && isNum(v, i), "string-match returns the 0-based start of the leftmost match")
		zv.Cover("match")
	} else {
		zv.Assert(err == nil && isSym(v, "nil"), "string-match returns nil without a match")
		zv.Cover("none")
	}
}

// Bounds: patterns and replacements out of 200 strings of odd content (pairs of one of them and one of 13, thorough all pairs), the pattern quoted or not, in a text that holds it once, twice or more often.
func P14_odd_replacements() {
	pat, repl := odd.Pair("pattern")
	text := []string{pat, "a" + pat + "b" + pat, pat + pat + "\n" + pat}[zv.Choose("text", 3)]
	if zv.Choose("quoted", 2) == 1 {
		pat = regexp.QuoteMeta(pat)
	}
	v, err := strCall("replace-regexp-in-string", str(pat), str(repl), str(text))
	re, bad := regexp.Compile(pat)
	if bad != nil {
		zv.Assert(err != nil, "replace-regexp-in-string rejects an invalid regexp")
		zv.Cover("invalid")
		return
	}
	want, last := "", 0
	for _, m := range re.FindAllStringSubmatchIndex(text, -1) {
		want += text[last:m[0]] + string(re.ExpandString(nil, repl, text, m))
		last = m[1]
	}
	zv.Assert(err == nil && isStr(v, want+text[last:]), "replace-regexp-in-string replaces every successive match and nothing else")
	zv.Cover("replaced")
}

// Bounds: texts of 200 strings of odd content and of 10 sizes from 255 to 70000, a program of 1..3 instructions that fails at its last one, whose string arguments are out of the 200.
func P15_odd() {
	text := ""
	if zv.Choose("long", 2) == 1 {
		text = strings.Repeat("ab c\n", 14000)[:[]int{255, 256, 1023, 1024, 4095, 4096, 4097, 8192, 65537, 70000}[zv.Choose("size", 10)]]
	} else {
		text = odd.Str("text")
	}
	arg := odd.Few[zv.Choose("argument", len(odd.Few))]
	b := edlisp.NewBuffer(text)
	b.SetPoint([]int{1, len(text)/2 + 1, len(text) + 1}[zv.Choose("point", 3)])
	b.SetMark(len(text) + 1)
	if len(text) > 0 {
		do(b, "re-search-backward", str("(?s)."))
	}
	own := errors.New(arg)
	env := edlisp.NewDefaultEnvironment()
	env.Functions["fail"] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) { return nil, own }
	prog := []edlisp.Value{instr("insert", str(arg)), instr("insert", str("")), instr("fail", str(arg), sym(arg)), instr("insert", str("never"))}[zv.Choose("from", 3):]
	if x := prog[len(prog)-2].(*edlisp.List); zv.Choose("argument kind", 2) == 0 {
		x.Elements = x.Elements[:2] // a symbol as an argument is an error of its own
	}
	v, err := edlisp.Eval(prog, env, b)
	f := snapFull(b)
	ee, ok := err.(*edlisp.ExecutionError)
	zv.Assert(v == nil && ok, "a failing instruction ends the program with an execution error")
	zv.Assert(ee.InstructionIndex == len(prog)-2 && ee.CurrentInstruction == prog[len(prog)-2], "the error carries the instruction and its index")
	zv.Assert(ee.BufferContents == f.text && ee.Point == f.pt && ee.Mark == f.mark && ee.LastSearchMatch == f.match, "the error carries the buffer text, point, mark and last match")
	zv.Assert(len(prog) < 4 || strings.Contains(f.text, arg), "the instructions before the failing one have their effect")
	zv.Assert(!strings.Contains(f.text, "never"), "no later instruction has any effect")
	if len(prog[len(prog)-2].(*edlisp.List).Elements) == 2 {
		zv.Assert(errors.Is(err, own) && errors.Unwrap(err) == own, "the error unwraps to the original error")
		zv.Cover("own")
	}
	zv.Cover("failed")
}

// Bounds: every pair of 200 strings of odd content, as two strings, two symbols, one of each, or in lists.
func P26_odd() {
	a := odd.Str("a")
	others := odd.Strings
	if zv.Choose("near", 2) == 1 {
		others = odd.Near(a)
	}
	for _, c := range others {
		zv.Assert(edlisp.Equal(str(a), str(c)) == (a == c), "Equal holds exactly for identical strings")
		zv.Assert(edlisp.Equal(sym(a), sym(c)) == (a == c), "Equal holds exactly for identical symbols")
		zv.Assert(!edlisp.Equal(str(a), sym(c)) && !edlisp.Equal(sym(a), str(c)), "a string and a symbol are not equal")
		zv.Assert(edlisp.Equal(list(sym("f"), str(a)), list(sym("f"), str(c))) == (a == c), "Equal holds exactly for lists of identical elements")
		zv.Assert(!edlisp.Equal(list(str(a)), str(c)) && !edlisp.Equal(str(a), inum(1)), "values of different kinds are not equal")
	}
	zv.Cover("compared")
}
