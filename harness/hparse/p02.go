package hparse

import (
	"strings"

	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/zzverif/zv"
)

// Bounds: scripts of 12000 (natively 6 million) nested lists, empty or called as "a", closed or not, alone, as an argument, or after another instruction; parsing needs fewer than 3000 nested calls.
func P02_nesting() {
	n := zv.Scale(12000, 6000000)
	list := []string{"(", "(a "}[zv.Choose("list", 2)]
	s := []string{"", "a ", "a;", "(a)\n"}[zv.Choose("before", 4)] + strings.Repeat(list, n)
	if zv.Bool("closed") {
		s += strings.Repeat(")", n)
	}
	parser.ParseString(s)
	zv.Cover("survived")
}
