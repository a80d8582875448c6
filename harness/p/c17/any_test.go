package c17

import (
	"fmt"
	"testing"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	sx "verif/harness/streamx"
	"verif/harness/typex"
	"verif/harness/vt"
)

// anyType: the transforms do with elements of type T what they do with any others
func anyType[T any](c *vt.C, o typex.Of[T]) {
	v := o.Draw(c, 9, "element")
	mem := append([]T{}, v[:cap(v)]...)
	n := uint(c.Range(0, 10, "n"))
	src := func() iter.Iter[T] { return sx.RichIf(n&1 == 1, iter.OfSlice(v)) }
	expect := func(name string, got []T, want []T) {
		if !typex.Same(got, want) {
			c.Fatalf("%s of %s %#v is %#v; expected %#v", name, o.Name, v, got, want)
		}
	}
	k := min(int(n), len(v))
	at := 0
	odd := func(T) bool { at++; return at&1 == 1 }
	var odds, rev []T
	for i, x := range v {
		rev = append([]T{x}, rev...)
		if i&1 == 0 {
			odds = append(odds, x)
		}
	}
	expect(fmt.Sprintf("Skip %d", n), all(c, stream.Skip[T](n)(src())), v[k:])
	expect(fmt.Sprintf("Limit %d", n), all(c, stream.Limit[T](n)(src())), v[:k])
	expect("Filter", all(c, stream.Filter(odd)(src())), odds)
	expect("Reverse", all(c, stream.Reverse(src())), rev)
	expect("Map", all(c, stream.Map(func(x T) T { return x })(src())), v)
	expect("Map to any and back", all(c, stream.Map(func(x any) T { t, _ := x.(T); return t })(stream.Map(func(x T) any { return x })(src()))), v)
	var seen []T
	expect("Peek", all(c, stream.Peek(func(x T) { seen = append(seen, x) })(src())), v)
	expect("Peek's argument", seen, v)
	less := func(a, b T) bool { return typex.Key(a) < typex.Key(b) }
	checkSort(c, "SortBy of "+o.Name, v, all(c, stream.SortBy(less)(src())), typex.Key[T], less)
	// a problem for each second element
	i := 0
	me := stream.MapError(func(x T) (T, error) {
		if i++; i == k+1 && k < len(v) {
			return x, sx.Faults[0]
		}
		return x, nil
	})(src())
	for j := range k {
		if x, err := me.Next(); err != nil || typex.Key(x) != typex.Key(v[j]) {
			c.Fatalf("MapError of %s %#v is %#v, %v at %d", o.Name, v, x, err, j)
		}
	}
	if x, err := me.Next(); typex.Key(x) != typex.Key(*new(T)) || err == nil || k < len(v) && err != sx.Faults[0] {
		c.Fatalf("MapError of %s %#v is %#v, %v at the problem", o.Name, v, x, err)
	}
	// slices
	s := all(c, stream.ReduceToSlice(src()))
	if len(s) != 1 || s[0] == nil {
		c.Fatalf("ReduceToSlice of %s %#v yields %#v", o.Name, v, s)
	}
	expect("ReduceToSlice", s[0], v)
	room := make([]T, len(v)+2)
	mark := o.One(c, "mark")
	for i := range room {
		room[i] = mark
	}
	into := all(c, stream.ReduceIntoSlice(room)(src()))
	if len(into) != 1 || len(into[0]) != len(room) || &into[0][0] != &room[0] {
		c.Fatalf("ReduceIntoSlice of %s %#v yields %#v", o.Name, v, into)
	}
	expect("ReduceIntoSlice", room, append(append([]T{}, v...), mark, mark))
	parts := [][]T{nil, v[:k], {}, v[k:], nil}
	expect("ExpandSlices", all(c, stream.ExpandSlices(sx.Rich(iter.OfSlice(parts)))), v)
	// the elements as values of a map, and as results of reductions
	var pairs []tuple.Two[int, T]
	for i, x := range v {
		pairs = append(pairs, tuple.Of2(i/2, x))
	}
	m := all(c, stream.ReduceToMap(sx.Rich(iter.OfSlice(pairs))))
	if len(m) != 1 || len(m[0]) != (len(v)+1)/2 {
		c.Fatalf("ReduceToMap of %s %#v yields %#v", o.Name, v, m)
	}
	for i, x := range m[0] {
		if typex.Key(x) != typex.Key(v[min(2*i+1, len(v)-1)]) {
			c.Fatalf("ReduceToMap of %s %#v has %#v at %d", o.Name, v, x, i)
		}
	}
	back := make([]T, len(m[0]))
	for _, kv := range all(c, stream.ExpandMaps(sx.Rich(iter.OfSlice(m)))) {
		back[kv.T] = kv.U
	}
	for i, x := range back {
		if typex.Key(x) != typex.Key(m[0][i]) {
			c.Fatalf("ExpandMaps of %#v has %#v at %d", m[0], x, i)
		}
	}
	last := stream.Reduce(func(a, b T) T { return b })
	first := stream.Reduce(func(a, b T) T { return a })
	initial := o.One(c, "initial")
	to := all(c, stream.ReduceTo(func(a T, b T) T { return b }, initial)(src()))
	to0 := all(c, stream.ReduceTo(func(a T, b T) T { return a }, initial)(src()))
	if len(v) == 0 {
		expect("Reduce", all(c, last(src())), nil)
		expect("ReduceTo", to, []T{initial})
	} else {
		expect("Reduce to the last", all(c, last(src())), v[len(v)-1:])
		expect("Reduce to the first", all(c, first(src())), v[:1])
		expect("ReduceTo the last", to, v[len(v)-1:])
	}
	expect("ReduceTo the initial value", to0, []T{initial})
	cnt := all(c, stream.Count(src()))
	is := func(x T) bool { return typex.Key(x) == typex.Key(mark) }
	num := 0
	for _, x := range v {
		if is(x) {
			num++
		}
	}
	bools := fmt.Sprint(all(c, stream.AllMatch(is)(src())), all(c, stream.AnyMatch(is)(src())), all(c, stream.NoneMatch(is)(src())))
	if want := fmt.Sprint([]bool{num == len(v)}, []bool{num > 0}, []bool{num == 0}); bools != want || fmt.Sprint(cnt) != fmt.Sprint([]int{len(v)}) {
		c.Fatalf("%s %#v: %v elements, matches of %#v are %s; expected %s", o.Name, v, cnt, mark, bools, want)
	}
	expect("The source slice", v[:cap(v)], mem)
	if len(v) >= 3 {
		c.NonTrivial("%s %#v %d", o.Name, v, n)
	}
}

// TestAnyType: elements of any type, nil and zero values included
func TestAnyType(t *testing.T) {
	vt.Check(t, 20000, "up to 9 elements of one of 20 types (interfaces, pointers, functions, channels, slices, maps, structs without size, floats ...), nil and zero values among them, through every transform; non-trivial if of at least 3 elements", func(c *vt.C) {
		[]func(){
			func() { anyType(c, typex.Any) }, func() { anyType(c, typex.Err) }, func() { anyType(c, typex.Str) }, func() { anyType(c, typex.Ptr) },
			func() { anyType(c, typex.PP) }, func() { anyType(c, typex.Nul) }, func() { anyType(c, typex.Arr) }, func() { anyType(c, typex.A2) },
			func() { anyType(c, typex.Slc) }, func() { anyType(c, typex.Map) }, func() { anyType(c, typex.Fun) }, func() { anyType(c, typex.Chn) },
			func() { anyType(c, typex.Prs) }, func() { anyType(c, typex.Flt) }, func() { anyType(c, typex.Cpl) }, func() { anyType(c, typex.Txt) },
			func() { anyType(c, typex.Bol) }, func() { anyType(c, typex.I8) }, func() { anyType(c, typex.U64) }, func() { anyType(c, typex.Big) },
		}[c.Range(0, 19, "type")]()
	})
}
