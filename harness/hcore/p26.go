package hcore

import (
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/zv"
)

// tree makes an arbitrary value; lists nest to the given depth with at most n elements.
func tree(label string, depth, n int, holes bool) edlisp.Value {
	k := 3
	if depth > 0 {
		k = 4
	}
	if holes {
		k++
	}
	c := zv.Choose(label, k)
	if holes && c == k-1 {
		return nil
	}
	switch c {
	case 0:
		return str(zv.Str(label+"s", 1, "ab"))
	case 1:
		f := zv.Float(label + "n")
		zv.Assume(f == f)
		return num(f)
	case 2:
		return sym(zv.Str(label+"y", 1, "ab"))
	}
	var els []edlisp.Value
	for i := zv.Choose(label+"len", n+1); i > 0; i-- {
		els = append(els, tree(label+".", depth-1, n, holes))
	}
	return list(els...)
}

// same is structural identity.
func same(a, b edlisp.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *edlisp.String:
		y, ok := b.(*edlisp.String)
		return ok && x.Value == y.Value
	case *edlisp.Number:
		y, ok := b.(*edlisp.Number)
		return ok && x.Value == y.Value
	case *edlisp.Symbol:
		y, ok := b.(*edlisp.Symbol)
		return ok && x.Name == y.Name
	case *edlisp.List:
		y, ok := b.(*edlisp.List)
		if !ok || len(x.Elements) != len(y.Elements) {
			return false
		}
		for i := range x.Elements {
			if !same(x.Elements[i], y.Elements[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// Bounds: all pairs of values: strings and symbols of up to 1 byte, every non-NaN float64, nil, lists of up to 2 elements nested to depth 2 on the left, 2 on the right.
func P26_equal_is_structural() {
	a := tree("a", tq(1, 2), 2, true)
	b := tree("b", tq(1, 2), 2, true)
	eq := edlisp.Equal(a, b)
	zv.Assert(eq == same(a, b), "Equal holds exactly for structurally identical values of the same kind")
	zv.Assert(edlisp.Equal(b, a) == eq, "Equal is symmetric")
	if eq {
		zv.Cover("equal")
	} else {
		zv.Cover("different")
	}
}

// Bounds: values as above nested to depth 2; triples of atoms and lists of up to 1 element.
func P26_equivalence() {
	if zv.Bool("reflexive") {
		a := tree("a", 2, 2, true)
		zv.Assert(edlisp.Equal(a, a), "Equal is reflexive")
		if a != nil {
			zv.Assert(edlisp.Equal(a, copyValue(a)), "a copy is equal")
		}
		zv.Cover("reflexive")
		return
	}
	a, b, c := tree("a", 1, 1, false), tree("b", 1, 1, false), tree("c", 1, 1, false)
	if edlisp.Equal(a, b) && edlisp.Equal(b, c) {
		zv.Assert(edlisp.Equal(a, c), "Equal is transitive")
		zv.Cover("transitive")
	}
}

// Bounds: lists of 0..4 elements with spare capacity 0..2; append and rest chains of length 2; indices every int.
func P26_lists() {
	n := zv.Choose("len", 5)
	els := make([]edlisp.Value, 0, n+zv.Choose("spare", 3))
	for i := 0; i < n; i++ {
		els = append(els, inum(i))
	}
	l := edlisp.NewList(els...)
	cp := append([]edlisp.Value{}, els...)
	unchanged := func(what string) {
		zv.Assert(l.Len() == n, what+" leaves the list's length alone")
		for i := 0; i < n; i++ {
			zv.Assert(l.Get(i) == cp[i], what+" leaves the list's elements alone")
		}
	}
	a1 := l.Append(str("x"))
	a2 := l.Append(str("y"))
	unchanged("append")
	zv.Assert(a1.Len() == n+1 && isStr(a1.Get(n), "x"), "append returns the list with the element at the end")
	zv.Assert(a2.Len() == n+1 && isStr(a2.Get(n), "y"), "a second append does not disturb the first")
	r := l.Rest()
	unchanged("rest")
	zv.Assert(r.Len() == max(0, n-1), "rest drops the first element")
	for i := 0; i < r.Len(); i++ {
		zv.Assert(r.Get(i) == cp[i+1], "rest keeps the other elements")
	}
	ra := r.Append(str("z"))
	unchanged("append to the rest")
	zv.Assert(isStr(ra.Get(ra.Len()-1), "z"), "append to the rest adds the element")
	for i := 0; i < n; i++ {
		zv.Assert(a1.Get(i) == cp[i], "append keeps the elements")
	}
	// writing to a derived list must not write to the original
	ab := a1.Append(str("w"))
	zv.Assert(a1.Len() == n+1 && isStr(a1.Get(n), "x") && isStr(ab.Get(n+1), "w"), "append to a derived list is fresh")
	i := zv.Int("index")
	g := l.Get(i)
	if i < 0 || i >= n {
		zv.Assert(g == nil, "get returns nil out of range")
		zv.Cover("out of range")
	} else {
		zv.Assert(g == cp[i], "get returns the element")
		zv.Cover("in range")
	}
	if n == 0 {
		zv.Assert(l.First() == nil && l.IsEmpty(), "first of an empty list is nil")
	} else {
		zv.Assert(l.First() == cp[0] && !l.IsEmpty(), "first is the first element")
	}
	unchanged("any list operation")
}
