package c15

import (
	"errors"
	"fmt"
	"testing"

	"github.com/bantling/micro/iter"
	"verif/harness/streamx"
	"verif/harness/typex"
	"verif/harness/vt"
)

// anyType: iterators of elements of type T
func anyType[T any](c *vt.C, o typex.Of[T]) {
	v := o.Draw(c, 9, "element")
	mem := append([]T{}, v[:cap(v)]...)
	k := c.Range(0, len(v), "cut")
	one := o.One(c, "one")
	fault := errors.New("fault")
	var zv T
	check := func(name string, next func() (T, error), want []T, end error) {
		for i := range len(want) + 3 {
			w, e := zv, end
			if i < len(want) {
				w, e = want[i], nil
			}
			if x, err := next(); typex.Key(x) != typex.Key(w) || err != e {
				c.Fatalf("%s of %s %#v at %d: %#v, %v; expected %#v, %v", name, o.Name, v, i, x, err, w, e)
			}
		}
	}
	check("OfSlice", iter.OfSlice(v).Next, v, iter.EOI)
	check("SliceIterGen", iter.SliceIterGen(v), v, iter.EOI)
	check("Of", iter.Of(v...).Next, v, iter.EOI)
	check("OfEmpty", iter.OfEmpty[T]().Next, nil, iter.EOI)
	check("OfOne", iter.OfOne(one).Next, []T{one}, iter.EOI)
	check("SingleValueIterGen", iter.SingleValueIterGen(one), []T{one}, iter.EOI)
	check("Concat", iter.Concat(streamx.Rich(iter.OfSlice(v[:k])), iter.OfEmpty[T](), iter.Of(v[k:]...), iter.OfOne(one)).Next, append(v[:len(v):len(v)], one), iter.EOI)
	check("SetError", iter.SetError(streamx.Rich(iter.OfSlice(v)), fault).Next, v, fault)
	it := iter.OfSlice(v)
	for range k {
		it.Next()
	}
	for _, x := range v {
		it.Unread(x)
	}
	it.Unread(one)
	want := []T{one}
	for i := range v {
		want = append(want, v[len(v)-1-i])
	}
	check(fmt.Sprintf("Unread at %d", k), it.Next, append(want, v[k:]...), iter.EOI)
	// a series that starts with the elements
	n := 0
	inf := iter.InfiniteIterGen(func(x T) T {
		if n++; n == 1 && len(v) > 0 && typex.Key(x) != typex.Key(v[len(v)-1]) || len(v) == 0 && n == 1 && typex.Key(x) != typex.Key(zv) {
			c.Fatalf("InfiniteIterGen of %s %#v starts from %#v", o.Name, v, x)
		}
		return one
	}, v...)
	for i := range len(v) + 2 {
		x, err := inf()
		if w := append(v[:max(0, len(v)-1):max(0, len(v)-1)], one, one, one)[i]; err != nil || typex.Key(x) != typex.Key(w) {
			c.Fatalf("InfiniteIterGen of %s %#v at %d: %#v, %v", o.Name, v, i, x, err)
		}
	}
	// as values of a map, and as results
	m := map[int]T{}
	for i, x := range v {
		m[i] = x
	}
	mi := iter.OfMap(m)
	seen := map[int]bool{}
	for range v {
		kv, err := mi.Next()
		if x, has := m[kv.T]; err != nil || !has || seen[kv.T] || typex.Key(kv.U) != typex.Key(x) {
			c.Fatalf("OfMap of %#v: %#v, %v", m, kv, err)
		}
		seen[kv.T] = true
	}
	if kv, err := mi.Next(); err != iter.EOI || kv.T != 0 || typex.Key(kv.U) != typex.Key(zv) {
		c.Fatalf("OfMap of %#v ends with %#v, %v", m, kv, err)
	}
	if r := iter.Maybe(streamx.Rich(iter.OfOne(one))); !r.HasResult() || typex.Key(r.Get()) != typex.Key(one) {
		c.Fatalf("Maybe of %s %#v is %v", o.Name, one, r)
	}
	if r := iter.Maybe(streamx.Rich(iter.OfEmpty[T]())); r.HasResult() || r.Error() != iter.EOI {
		c.Fatalf("Maybe of no %s is %v", o.Name, r)
	}
	if !typex.Same(v[:cap(v)], mem) {
		c.Fatalf("%s %#v is changed to %#v", o.Name, mem, v[:cap(v)])
	}
	if len(v) >= 3 {
		c.NonTrivial("%s %#v %d", o.Name, v, k)
	}
}

// TestAnyType: values of any type, nil and zero values included
func TestAnyType(t *testing.T) {
	vt.Check(t, 15000, "up to 9 elements of one of 20 types (interfaces, pointers, functions, channels, slices, maps, structs without size, floats ...), nil and zero values among them, in every kind of iterator; non-trivial if of at least 3 elements", func(c *vt.C) {
		[]func(){
			func() { anyType(c, typex.Any) }, func() { anyType(c, typex.Err) }, func() { anyType(c, typex.Str) }, func() { anyType(c, typex.Ptr) },
			func() { anyType(c, typex.PP) }, func() { anyType(c, typex.Nul) }, func() { anyType(c, typex.Arr) }, func() { anyType(c, typex.A2) },
			func() { anyType(c, typex.Slc) }, func() { anyType(c, typex.Map) }, func() { anyType(c, typex.Fun) }, func() { anyType(c, typex.Chn) },
			func() { anyType(c, typex.Prs) }, func() { anyType(c, typex.Flt) }, func() { anyType(c, typex.Cpl) }, func() { anyType(c, typex.Txt) },
			func() { anyType(c, typex.Bol) }, func() { anyType(c, typex.I8) }, func() { anyType(c, typex.U64) }, func() { anyType(c, typex.Big) },
		}[c.Range(0, 19, "type")]()
	})
}
