package c20

import (
	"errors"
	"fmt"
	"testing"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verif/harness/typex"
	"verif/harness/vt"
)

// anyType: elements of type T from the source, and to the result
func anyType[T any](c *vt.C, o typex.Of[T]) {
	v := o.Draw(c, 12, "element")
	inf := info(c, len(v))
	what := fmt.Sprintf("Parallel of %s %#v by %v", o.Name, v, inf)
	check := func(name string, it iter.Iter[T], want []T, end error) {
		for i := range len(want) + 2 {
			var w T
			e := end
			if i < len(want) {
				w, e = want[i], nil
			}
			if x, err := it.Next(); typex.Key(x) != typex.Key(w) || err != e {
				c.Fatalf("%s %s at %d: %#v, %v; expected %#v, %v", what, name, i, x, err, w, e)
			}
		}
	}
	mark := o.One(c, "mark")
	var twice, no []T
	for _, x := range v {
		twice = append(twice, x, mark)
		if typex.Key(x) != typex.Key(mark) {
			no = append(no, x)
		}
	}
	check("unchanged", stream.Parallel(func(it iter.Iter[T]) iter.Iter[T] { return it }, inf...)(iter.OfSlice(v)), v, iter.EOI)
	check("with another after each", stream.Parallel(func(it iter.Iter[T]) iter.Iter[T] {
		return stream.ExpandSlices(stream.Map(func(x T) []T { return []T{x, mark} })(it))
	}, inf...)(iter.OfSlice(v)), twice, iter.EOI)
	check("but one", stream.Parallel(stream.Filter(func(x T) bool { return typex.Key(x) != typex.Key(mark) }), inf...)(iter.OfSlice(v)), no, iter.EOI)
	fault := errors.New("fault")
	check("of a source that fails", stream.Parallel(stream.Map(func(x T) T { return x }), inf...)(iter.SetError(iter.OfSlice(v), fault)), nil, fault)
	if len(v) >= 3 {
		c.NonTrivial("%s", what)
	}
}

// TestAnyType: elements of any type, nil and zero values included
func TestAnyType(t *testing.T) {
	vt.Check(t, 4000, "up to 12 elements of one of 20 types (interfaces, pointers, functions, channels, slices, maps, structs without size, floats ...), nil and zero values among them, divided in all ways; non-trivial if of at least 3 elements", func(c *vt.C) {
		[]func(){
			func() { anyType(c, typex.Any) }, func() { anyType(c, typex.Err) }, func() { anyType(c, typex.Str) }, func() { anyType(c, typex.Ptr) },
			func() { anyType(c, typex.PP) }, func() { anyType(c, typex.Nul) }, func() { anyType(c, typex.Arr) }, func() { anyType(c, typex.A2) },
			func() { anyType(c, typex.Slc) }, func() { anyType(c, typex.Map) }, func() { anyType(c, typex.Fun) }, func() { anyType(c, typex.Chn) },
			func() { anyType(c, typex.Prs) }, func() { anyType(c, typex.Flt) }, func() { anyType(c, typex.Cpl) }, func() { anyType(c, typex.Txt) },
			func() { anyType(c, typex.Bol) }, func() { anyType(c, typex.I8) }, func() { anyType(c, typex.U64) }, func() { anyType(c, typex.Big) },
		}[c.Range(0, 19, "type")]()
	})
}
