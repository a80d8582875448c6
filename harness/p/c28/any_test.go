package c28

import (
	"errors"
	"math"
	"reflect"
	"testing"

	"github.com/bantling/micro/funcs"
	"verif/harness/typex"
	"verif/harness/vt"
)

// anyType: values of type T
func anyType[T any](c *vt.C, o typex.Of[T]) {
	a, b := o.One(c, "a"), o.One(c, "b")
	var zv T
	same := func(x, y T) bool { return typex.Key(x) == typex.Key(y) }
	bad := func(name string, got any) { c.Fatalf("%s of %s %#v and %#v: %#v", name, o.Name, a, b, got) }
	for _, cond := range []bool{true, false} {
		want := map[bool]T{true: a, false: b}[cond]
		if r := funcs.Ternary(cond, a, b); !same(r, want) {
			bad("Ternary", r)
		}
		if r := funcs.TernaryResult(cond, func() T { return a }, func() T { return b }); !same(r, want) {
			bad("TernaryResult", r)
		}
		if r := funcs.TernaryResult(cond, nil, func() T { return b }); !same(r, map[bool]T{true: zv, false: b}[cond]) {
			bad("TernaryResult without a function", r)
		}
	}
	x, y, z := zv, zv, zv
	if _, p := vt.Panics(func() { x = funcs.MustValue(a, nil) }); p || !same(x, a) {
		bad("MustValue", x)
	}
	if _, p := vt.Panics(func() { x, y = funcs.MustValue2(b, a, nil) }); p || !same(x, b) || !same(y, a) {
		bad("MustValue2", x)
	}
	if _, p := vt.Panics(func() { x, y, z = funcs.MustValue3(a, b, a, nil) }); p || !same(x, a) || !same(y, b) || !same(z, a) {
		bad("MustValue3", x)
	}
	fault := errors.New("fault")
	if e, p := vt.Panics(func() { funcs.MustValue(a, fault) }); !p || e != any(fault) {
		bad("MustValue with an error", e)
	}
	if r := funcs.FirstValue2(a, b); !same(r, a) {
		bad("FirstValue2", r)
	}
	if r := funcs.SecondValue2(a, b); !same(r, b) {
		bad("SecondValue2", r)
	}
	if r := funcs.FirstValue3(a, b, b); !same(r, a) {
		bad("FirstValue3", r)
	}
	if r := funcs.SecondValue3(b, a, b); !same(r, a) {
		bad("SecondValue3", r)
	}
	if r := funcs.ThirdValue3(b, b, a); !same(r, a) {
		bad("ThirdValue3", r)
	}
	made := 0
	cached := funcs.SupplierCached(func() T {
		if made++; made == 1 {
			return a
		}
		return b
	})
	of := funcs.SupplierOf(a)
	for range 3 {
		if r := cached(); made != 1 || !same(r, a) {
			bad("SupplierCached", r)
		}
		if r := of(); !same(r, a) {
			bad("SupplierOf", r)
		}
	}
	ran := 0
	funcs.IgnoreResult(func() T { ran++; return a })()
	if ran != 1 {
		bad("IgnoreResult", ran)
	}
	to := func(w T) func(T) T {
		return func(v T) T {
			if ran++; !same(v, w) {
				bad("Compose: argument", v)
			}
			return map[bool]T{true: b, false: a}[same(w, a)]
		}
	}
	ran = 0
	if r := funcs.Compose(to(a), to(b), to(map[bool]T{true: b, false: a}[same(a, b)]))(a); ran != 3 {
		bad("Compose", r)
	}
	calls := ""
	is := func(tag string, w T) func(T) bool { return func(v T) bool { calls += tag; return same(v, w) } }
	eq := same(a, b)
	if r := funcs.And(is("1", a), is("2", b))(a); r != eq || calls != "12" {
		bad("And", calls)
	}
	calls = ""
	if r := funcs.Or(is("1", b), is("2", a))(a); !r || calls != map[bool]string{true: "1", false: "12"}[eq] {
		bad("Or", calls)
	}
	if funcs.Not(is("3", b))(a) == eq {
		bad("Not", eq)
	}
	// zero, but for negative zero, which is not the zero value but equal to it
	if f, isa := any(a).(float64); !isa || !math.Signbit(f) || f != 0 {
		if cx, isa := any(a).(complex64); !isa || cx != 0 {
			rv := reflect.ValueOf(a)
			zero := !rv.IsValid() || rv.IsZero()
			if e, p := vt.Panics(func() { x = funcs.MustNonZero(a) }); p != zero || !p && !same(x, a) {
				bad("MustNonZero", e)
			}
		}
	}
	// assertions
	got, err := funcs.AssertType[T]("a value", any(a))
	if _, isa := any(a).(T); isa != (err == nil) || isa && !same(got, a) || !isa && !same(got, zv) {
		bad("AssertType", got)
	}
	if got, err := funcs.AssertType[T]("a value", &a); err == nil {
		if _, isa := any(&a).(T); !isa {
			bad("AssertType of a pointer", got)
		}
	}
	one := []T{a}
	if e, p := vt.Panics(func() { one = funcs.MustNonEmptySlice(one) }); p || len(one) != 1 || !same(one[0], a) {
		bad("MustNonEmptySlice", e)
	}
	if _, p := vt.Panics(func() { funcs.MustNonEmptySlice([]T{}) }); !p {
		bad("MustNonEmptySlice of none", p)
	}
	if !eq {
		c.NonTrivial("%s %#v %#v", o.Name, a, b)
	}
}

// TestAnyType: values of any type, nil and zero values included
func TestAnyType(t *testing.T) {
	vt.Check(t, 12000, "two values of one of 20 types (interfaces, pointers, functions, channels, slices, maps, structs without size, floats ...), nil and zero values among them, through the functions for values of any type; non-trivial if they differ", func(c *vt.C) {
		[]func(){
			func() { anyType(c, typex.Any) }, func() { anyType(c, typex.Err) }, func() { anyType(c, typex.Str) }, func() { anyType(c, typex.Ptr) },
			func() { anyType(c, typex.PP) }, func() { anyType(c, typex.Nul) }, func() { anyType(c, typex.Arr) }, func() { anyType(c, typex.A2) },
			func() { anyType(c, typex.Slc) }, func() { anyType(c, typex.Map) }, func() { anyType(c, typex.Fun) }, func() { anyType(c, typex.Chn) },
			func() { anyType(c, typex.Prs) }, func() { anyType(c, typex.Flt) }, func() { anyType(c, typex.Cpl) }, func() { anyType(c, typex.Txt) },
			func() { anyType(c, typex.Bol) }, func() { anyType(c, typex.I8) }, func() { anyType(c, typex.U64) }, func() { anyType(c, typex.Big) },
		}[c.Range(0, 19, "type")]()
	})
}
