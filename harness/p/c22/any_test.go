package c22

import (
	"sort"
	"testing"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"verif/harness/typex"
	"verif/harness/vt"
)

// anyType: slices and maps of elements of type T
func anyType[T any](c *vt.C, o typex.Of[T]) {
	v := o.Draw(c, 9, "element")
	mem := append([]T{}, v[:cap(v)]...)
	orig := mem[:len(v):len(v)]
	one, other := o.One(c, "one"), o.One(c, "other")
	var zv T
	bad := func(name string, got any) { c.Fatalf("%s of %s %#v: %#v", name, o.Name, orig, got) }
	same := func(a, b T) bool { return typex.Key(a) == typex.Key(b) }
	if r := funcs.SliceCopy(v); r == nil || !typex.Same(r, orig) || len(r) > 0 && any(&r[0]) == any(&v[0]) && !zeroSize(zv) {
		bad("SliceCopy", r)
	}
	if r := funcs.SliceOf(v...); !typex.Same(r, orig) {
		bad("SliceOf", r)
	}
	r := funcs.SliceCopy(v)
	if funcs.SliceAdd(&r, one); !typex.Same(r, append(orig, one)) {
		bad("SliceAdd", r)
	}
	var none []T
	if funcs.SliceAdd(&none, one); !typex.Same(none, []T{one}) {
		bad("SliceAdd to nil", none)
	}
	for _, i := range []int{0, -1, c.Range(-12, 12, "index")} {
		w, w1 := zv, other
		if i >= 0 && i < len(v) {
			w, w1 = v[i], v[i]
		} else if i < 0 && len(v)+i >= 0 {
			w, w1 = v[len(v)+i], v[len(v)+i]
		}
		if x, y := funcs.SliceIndex(v, i), funcs.SliceIndex(v, i, other); !same(x, w) || !same(y, w1) {
			c.Fatalf("SliceIndex of %s %#v at %d: %#v, with default %#v: %#v", o.Name, orig, i, x, other, y)
		}
	}
	rev := funcs.SliceReverse(funcs.SliceCopy(v))
	for i, x := range rev {
		if len(rev) != len(v) || !same(x, v[len(v)-1-i]) {
			bad("SliceReverse", rev)
		}
	}
	less := func(a, b T) bool { return typex.Key(a) < typex.Key(b) }
	keys := typex.Keys(v)
	sort.Strings(keys)
	if s := typex.Keys(funcs.SliceSortBy(funcs.SliceCopy(v), less)); len(s) != len(keys) {
		bad("SliceSortBy", s)
	} else {
		for i := range s {
			if s[i] != keys[i] {
				bad("SliceSortBy", s)
			}
		}
	}
	set := funcs.SliceToMapBy(v, typex.Key[T])
	for _, k := range keys {
		if !set[k] {
			bad("SliceToMapBy", set)
		}
	}
	if !nested(zv) {
		if flat := funcs.SliceFlatten[T]([][]T{v, nil, {one}, {}, v}); !typex.Same(flat, append(append(append([]T{}, orig...), one), orig...)) {
			bad("SliceFlatten", flat)
		}
	}
	// maps
	var m map[int]T
	model := map[int]T{}
	for i, x := range v {
		k := c.Range(0, 4, "key")
		if i&3 == 3 {
			funcs.MapUnset(m, k)
			delete(model, k)
		} else {
			funcs.MapSet(&m, k, x)
			model[k] = x
		}
		for j := range 5 {
			y, has := model[j]
			z := y
			if !has {
				z = other
			}
			if g, d := funcs.MapIndex(m, j), funcs.MapIndex(m, j, other); funcs.MapTest(m, j) != has || !same(g, y) || !same(d, z) {
				c.Fatalf("%s: map %#v, expected %#v; at %d it is %#v, with default %#v: %#v", o.Name, m, model, j, g, other, d)
			}
		}
	}
	ks := []int{}
	for k := range model {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for name, s := range map[string][]tuple.Two[int, T]{"MapSortOrdered": funcs.MapSortOrdered(m), "MapSortBy": funcs.MapSortBy(m, func(a, b int) bool { return a < b })} {
		if len(s) != len(ks) {
			bad(name, s)
		}
		for i, kv := range s {
			if kv.T != ks[i] || !same(kv.U, model[kv.T]) {
				bad(name, s)
			}
		}
	}
	// two levels, and slices in them
	var m2 map[string]map[int]T
	var ms map[string][]T
	var m2s map[string]map[int][]T
	for i, x := range v {
		funcs.Map2Set(&m2, "k", i, x)
		funcs.MapSliceAdd(&ms, "k", x)
		funcs.Map2SliceAdd(&m2s, "k", i&1, x)
	}
	for i, x := range v {
		if !funcs.Map2Test(m2, "k", i) || !same(m2["k"][i], x) {
			bad("Map2Set", m2)
		}
	}
	if funcs.Map2Test(m2, "k", len(v)) || funcs.Map2Test(m2, "", 0) || !typex.Same(ms["k"], orig) {
		bad("Map2Test or MapSliceAdd", ms)
	}
	for i, x := range v {
		if l := m2s["k"][i&1]; i/2 >= len(l) || !same(l[i/2], x) {
			bad("Map2SliceAdd", m2s)
		}
	}
	if !typex.Same(v[:cap(v)], mem) {
		c.Fatalf("%s %#v is changed to %#v", o.Name, mem, v[:cap(v)])
	}
	if len(v) >= 3 {
		c.NonTrivial("%s %#v", o.Name, v)
	}
}

// zeroSize is true for values that have no memory of their own
func zeroSize(v any) bool {
	switch v.(type) {
	case struct{}, [0]string:
		return true
	}
	return false
}

// nested is true for types that are flattened themselves
func nested(v any) bool {
	_, isa := v.([]int)
	return isa
}

// TestAnyType: elements of any type, nil and zero values included
func TestAnyType(t *testing.T) {
	vt.Check(t, 15000, "up to 9 elements of one of 20 types (interfaces, pointers, functions, channels, slices, maps, structs without size, floats ...), nil and zero values among them, through the helpers for elements of any type; non-trivial if of at least 3 elements", func(c *vt.C) {
		[]func(){
			func() { anyType(c, typex.Any) }, func() { anyType(c, typex.Err) }, func() { anyType(c, typex.Str) }, func() { anyType(c, typex.Ptr) },
			func() { anyType(c, typex.PP) }, func() { anyType(c, typex.Nul) }, func() { anyType(c, typex.Arr) }, func() { anyType(c, typex.A2) },
			func() { anyType(c, typex.Slc) }, func() { anyType(c, typex.Map) }, func() { anyType(c, typex.Fun) }, func() { anyType(c, typex.Chn) },
			func() { anyType(c, typex.Prs) }, func() { anyType(c, typex.Flt) }, func() { anyType(c, typex.Cpl) }, func() { anyType(c, typex.Txt) },
			func() { anyType(c, typex.Bol) }, func() { anyType(c, typex.I8) }, func() { anyType(c, typex.U64) }, func() { anyType(c, typex.Big) },
		}[c.Range(0, 19, "type")]()
	})
}

// comparableType: slices and maps of elements and keys of a comparable type T
func comparableType[T comparable](c *vt.C, o typex.Of[T]) {
	v := o.Draw(c, 9, "element")
	mem := append([]T{}, v[:cap(v)]...)
	orig := mem[:len(v):len(v)]
	one, other := o.One(c, "one"), o.One(c, "other")
	same := func(a, b T) bool { return typex.Key(a) == typex.Key(b) }
	bad := func(name string, got any) {
		c.Fatalf("%s of %s %#v and %#v, %#v: %#v", name, o.Name, orig, one, other, got)
	}

	// what is left without the first, or all, values equal to x
	without := func(x T, all bool) []T {
		r, found := []T{}, false
		for _, y := range orig {
			if y == x && (all || !found) {
				found = true
			} else {
				r = append(r, y)
			}
		}
		return r
	}
	all := c.Bool("all")
	if r := funcs.SliceRemove(v, one); !typex.Same(r, without(one, false)) {
		bad("SliceRemove", r)
	}
	if r := funcs.SliceRemove(v, one, all); !typex.Same(r, without(one, all)) {
		bad("SliceRemove or all", r)
	}
	ms := map[string][]T{"k": funcs.SliceCopy(v), "l": funcs.SliceCopy(v)}
	if funcs.MapSliceRemove(ms, "k", one, all); len(ms) != 2 || !typex.Same(ms["k"], without(one, all)) || !typex.Same(ms["l"], orig) {
		bad("MapSliceRemove", ms)
	}
	m2s := map[T]map[T][]T{one: {other: funcs.SliceCopy(v)}}
	if one == one && other == other {
		if funcs.Map2SliceRemove(m2s, one, other, one, all); !typex.Same(m2s[one][other], without(one, all)) {
			bad("Map2SliceRemove", m2s)
		}
	}
	ts := []tuple.Two[int, []T]{tuple.Of2(1, funcs.SliceCopy(v)), tuple.Of2(3, funcs.SliceCopy(v))}
	if funcs.OrderedTuple2SliceRemoveValue(&ts, 3, one, all); len(ts) != 2 || !typex.Same(ts[0].U, orig) || !typex.Same(ts[1].U, without(one, all)) {
		bad("OrderedTuple2SliceRemoveValue", ts)
	}

	// sets: one of each of the values that are equal, and each that is not even equal to itself
	distinct, odd := []T{}, 0
	for i, y := range orig {
		n := 0
		for _, z := range orig[:i] {
			if z == y {
				n++
			}
		}
		if y != y {
			odd++
		} else if n == 0 {
			distinct = append(distinct, y)
		}
	}
	isSet := func(r []T) bool {
		for _, y := range distinct {
			n := 0
			for _, z := range r {
				if z == y {
					n++
				}
			}
			if n != 1 {
				return false
			}
		}
		return len(r) == len(distinct)+odd
	}
	if r := funcs.SliceUniqueValues(v); !isSet(r) {
		bad("SliceUniqueValues", r)
	}
	set := funcs.SliceToMap(v)
	if r := funcs.MapKeysToSlice(set); !isSet(r) {
		bad("SliceToMap or MapKeysToSlice", r)
	}
	for _, y := range set {
		if !y {
			bad("SliceToMap", set)
		}
	}
	if r := funcs.SliceToMapBy(v, func(x T) T { return x }); len(r) != len(set) {
		bad("SliceToMapBy", r)
	}

	// maps
	var mp map[T]int
	want := map[T]int{}
	for i, y := range orig {
		funcs.MapSet(&mp, y, i)
		want[y] = i
	}
	for _, y := range append(orig, one, other) {
		w, have := want[y]
		if r := funcs.MapTest(mp, y); r != have {
			bad("MapTest", r)
		}
		if r := funcs.MapIndex(mp, y); r != w {
			bad("MapIndex", r)
		}
		if r := funcs.MapIndex(mp, y, -5); have && r != w || !have && r != -5 {
			bad("MapIndex with a default", r)
		}
	}
	if len(mp) != len(want) {
		bad("MapSet", mp)
	}
	var m2 map[T]map[T]int
	for i, y := range orig {
		funcs.Map2Set(&m2, y, orig[len(orig)-1-i], i)
	}
	if len(m2) != len(want) {
		bad("Map2Set", m2)
	}
	for i, y := range orig {
		z := orig[len(orig)-1-i]
		if has := funcs.Map2Test(m2, y, z); has != (y == y && z == z) {
			bad("Map2Test", m2)
		}
	}
	if funcs.Map2Unset(m2, one, one); funcs.Map2Test(m2, one, one) {
		bad("Map2Unset", m2)
	}
	if funcs.MapUnset(mp, one); funcs.MapTest(mp, one) || len(mp) > len(want) {
		bad("MapUnset", mp)
	}
	delete(want, one)
	if len(mp) != len(want) {
		bad("MapUnset", mp)
	}
	for i := range v {
		if !same(v[i], mem[i]) {
			c.Fatalf("%s %#v is changed to %#v", o.Name, mem, v)
		}
	}
	if len(v) >= 3 && len(distinct) < len(v) {
		c.NonTrivial("%s %#v", o.Name, v)
	}
}

// comparable leaves out the values that cannot be compared
func comparables[T any](o typex.Of[T]) typex.Of[T] {
	r := typex.Of[T]{Name: o.Name}
	for _, v := range o.Pool {
		if _, p := vt.Panics(func() { _ = any(v) == any(v) }); !p {
			r.Pool = append(r.Pool, v)
		}
	}
	return r
}

// TestComparableType: elements and keys of any comparable type, those included that are equal but differ, print alike, or are not equal to themselves
func TestComparableType(t *testing.T) {
	anys := comparables(typex.Any)
	anys.Pool = append(anys.Pool, int8(0), "0", "<nil>", int64(0), float32(0), new(int), "x")
	vt.Check(t, 15000, "up to 9 elements of one of 16 comparable types, values that print alike, pointers to equal values, and NaN among them, through the helpers for elements and keys of comparable types; non-trivial if of at least 3 elements with equal ones among them", func(c *vt.C) {
		[]func(){
			func() { comparableType(c, anys) }, func() { comparableType(c, comparables(typex.Err)) }, func() { comparableType(c, typex.Str) }, func() { comparableType(c, typex.Ptr) },
			func() { comparableType(c, typex.PP) }, func() { comparableType(c, typex.Nul) }, func() { comparableType(c, typex.Arr) }, func() { comparableType(c, typex.A2) },
			func() { comparableType(c, typex.Chn) }, func() { comparableType(c, comparables(typex.Prs)) }, func() { comparableType(c, typex.Flt) }, func() { comparableType(c, typex.Cpl) },
			func() { comparableType(c, typex.Txt) }, func() { comparableType(c, typex.Bol) }, func() { comparableType(c, typex.U64) }, func() { comparableType(c, typex.Big) },
		}[c.Range(0, 15, "type")]()
	})
}
