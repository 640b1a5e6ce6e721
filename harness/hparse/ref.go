package hparse

import "github.com/dhamidi/texted/edlisp"

// The reference reader. Words are made of any bytes but blanks, separators, parentheses and quotes; those of "1" alone are the
// only numbers (the alphabets have no other digit). It follows the
// documented rules: newlines and semicolons outside literals separate
// instructions; words are separated by blanks and parentheses; a line is read
// as lists as long as it continues with "(", and as one shell-like command after that.

type word struct {
	kind byte // '(' ')' 's' string 'w' word
	text string
}

// verdict of the reference reader: weird scripts use word forms the documentation does not define.
type verdict struct {
	prog             []edlisp.Value
	malformed, weird bool
}

func blank(c byte) bool { return c == ' ' || c == '\t' || c == '\r' }

func wordByte(c byte) bool {
	return !blank(c) && c != '\n' && c != ';' && c != '(' && c != ')' && c != '"'
}

func refParse(s string) (v verdict) {
	var cmd []word
	i := 0
	for {
		if i == len(s) || s[i] == '\n' || s[i] == ';' {
			v.command(cmd)
			cmd = nil
			if i == len(s) {
				return v
			}
			i++
			continue
		}
		c := s[i]
		switch {
		case blank(c):
			i++
		case c == '(' || c == ')':
			cmd = append(cmd, word{c, ""})
			i++
		case c == '"':
			j, text := i+1, ""
			for j < len(s) && s[j] != '"' && s[j] != '\n' {
				if s[j] == '\\' {
					// of Go's escapes only these exist over the alphabets
					if j++; j == len(s) || s[j] == '\n' {
						break
					}
					switch s[j] {
					case '\\', '"':
						text += string([]byte{s[j]})
					case 'a':
						text += "\a"
					default:
						v.malformed = true
					}
				} else {
					text += string([]byte{s[j]})
				}
				j++
			}
			if j == len(s) || s[j] == '\n' {
				v.malformed = true
			}
			if v.malformed {
				return v
			}
			cmd = append(cmd, word{'s', text})
			i = j + 1
			if i < len(s) && (wordByte(s[i]) || s[i] == '"') {
				v.weird = true
			}
		default:
			j := i
			for j < len(s) && wordByte(s[j]) {
				j++
			}
			cmd = append(cmd, word{'w', s[i:j]})
			i = j
			if i < len(s) && s[i] == '"' {
				v.weird = true
			}
		}
	}
}

func (v *verdict) command(cmd []word) {
	i := 0
	for i < len(cmd) && cmd[i].kind == '(' {
		var l edlisp.Value
		if l, i = v.value(cmd, i); v.malformed {
			return
		}
		v.prog = append(v.prog, l)
	}
	if i == len(cmd) {
		return
	}
	var els []edlisp.Value
	for i < len(cmd) {
		var e edlisp.Value
		if e, i = v.value(cmd, i); v.malformed {
			return
		}
		els = append(els, e)
	}
	v.prog = append(v.prog, list(els...))
}

func (v *verdict) value(cmd []word, i int) (edlisp.Value, int) {
	switch w := cmd[i]; w.kind {
	case 's':
		return str(w.text), i + 1
	case 'w':
		n := 0.0
		for k := 0; k < len(w.text); k++ {
			if w.text[k] != '1' {
				return sym(w.text), i + 1
			}
			n = n*10 + 1
		}
		return num(n), i + 1
	case ')':
		v.malformed = true
		return nil, i
	}
	var els []edlisp.Value
	for i++; i < len(cmd) && cmd[i].kind != ')'; {
		var e edlisp.Value
		if e, i = v.value(cmd, i); v.malformed {
			return nil, i
		}
		els = append(els, e)
	}
	if i == len(cmd) {
		v.malformed = true
		return nil, i
	}
	return list(els...), i + 1
}
