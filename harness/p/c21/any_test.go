package c21

import (
	"errors"
	"testing"

	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/tuple"
	"verif/harness/typex"
	"verif/harness/vt"
)

// anyType: values of type T to slices, maps and functions
func anyType[T any](c *vt.C, o typex.Of[T]) {
	v := o.Draw(c, 9, "value")
	mem := append([]T{}, v[:cap(v)]...)
	k := c.Range(0, len(v), "cut")
	before := o.Draw(c, 3, "before")
	slc := before
	w := writer.OfSliceWriter(&slc)
	if e1, e2 := w.Write(v[:k]...), w.Write(v[k:]...); e1 != nil || e2 != nil || !typex.Same(slc, append(before[:len(before):len(before)], v...)) {
		c.Fatalf("%s %#v written to slice %#v: %#v, %v, %v", o.Name, v, before, slc, e1, e2)
	}
	m := map[int]T{}
	var pairs []tuple.Two[int, T]
	for i, x := range v {
		pairs = append(pairs, tuple.Of2(i/2, x))
	}
	if err := writer.OfMapWriter(m).Write(pairs...); err != nil || len(m) != (len(v)+1)/2 {
		c.Fatalf("%s %#v written to a map: %#v, %v", o.Name, v, m, err)
	}
	for i, x := range m {
		if typex.Key(x) != typex.Key(v[min(2*i+1, len(v)-1)]) {
			c.Fatalf("%s %#v written to a map: %#v", o.Name, v, m)
		}
	}
	fault := errors.New("fault")
	var got []T
	f := writer.NewWriter(func(x T) error {
		if len(got) == k && k < len(v) {
			return fault
		}
		got = append(got, x)
		return nil
	})
	if err := f.Write(v...); (err != nil) != (k < len(v)) || err != nil && err != fault || !typex.Same(got, v[:k]) {
		c.Fatalf("%s %#v written to a function that fails at %d: %#v, %v", o.Name, v, k, got, err)
	}
	if !typex.Same(v[:cap(v)], mem) {
		c.Fatalf("%s %#v is changed to %#v", o.Name, mem, v[:cap(v)])
	}
	if len(v) >= 3 {
		c.NonTrivial("%s %#v %d", o.Name, v, k)
	}
}

// TestAnyType: values of any type, nil and zero values included
func TestAnyType(t *testing.T) {
	vt.Check(t, 15000, "up to 9 values of one of 20 types (interfaces, pointers, functions, channels, slices, maps, structs without size, floats ...), nil and zero values among them, to slices, maps and functions; non-trivial if at least 3", func(c *vt.C) {
		[]func(){
			func() { anyType(c, typex.Any) }, func() { anyType(c, typex.Err) }, func() { anyType(c, typex.Str) }, func() { anyType(c, typex.Ptr) },
			func() { anyType(c, typex.PP) }, func() { anyType(c, typex.Nul) }, func() { anyType(c, typex.Arr) }, func() { anyType(c, typex.A2) },
			func() { anyType(c, typex.Slc) }, func() { anyType(c, typex.Map) }, func() { anyType(c, typex.Fun) }, func() { anyType(c, typex.Chn) },
			func() { anyType(c, typex.Prs) }, func() { anyType(c, typex.Flt) }, func() { anyType(c, typex.Cpl) }, func() { anyType(c, typex.Txt) },
			func() { anyType(c, typex.Bol) }, func() { anyType(c, typex.I8) }, func() { anyType(c, typex.U64) }, func() { anyType(c, typex.Big) },
		}[c.Range(0, 19, "type")]()
	})
}
