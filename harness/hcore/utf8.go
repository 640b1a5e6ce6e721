package hcore

// validUTF8 is a table-free reference for UTF-8 validity.
func validUTF8(s string) bool {
	for i := 0; i < len(s); {
		n := seqLen(s, i)
		if n == 0 {
			return false
		}
		i += n
	}
	return true
}

func cont(c byte) bool { return c >= 0x80 && c <= 0xBF }

// seqLen is the length of the valid sequence starting at i, or 0.
func seqLen(s string, i int) int {
	c := s[i]
	if c < 0x80 {
		return 1
	}
	if c < 0xC2 || c > 0xF4 || i+1 >= len(s) {
		return 0
	}
	d := s[i+1]
	if c < 0xE0 {
		if cont(d) {
			return 2
		}
		return 0
	}
	lo, hi := byte(0x80), byte(0xBF)
	switch c {
	case 0xE0:
		lo = 0xA0
	case 0xED:
		hi = 0x9F
	case 0xF0:
		lo = 0x90
	case 0xF4:
		hi = 0x8F
	}
	if d < lo || d > hi || i+2 >= len(s) || !cont(s[i+2]) {
		return 0
	}
	if c < 0xF0 {
		return 3
	}
	if i+3 >= len(s) || !cont(s[i+3]) {
		return 0
	}
	return 4
}

// boundary reports whether byte offset i of valid UTF-8 text starts a character (or is the end).
func boundary(s string, i int) bool { return i >= len(s) || !cont(s[i]) }
