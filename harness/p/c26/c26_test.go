package c26

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	ur "github.com/bantling/micro/union/reflect"
	ou "verif/harness/other/union"
	"verif/harness/vt"
)

type point struct {
	X, Y int
	S    []int
}

type named string

// types that can be converted to others
type (
	slice        []int
	pointer      *int
	derivedPoint point
)

// values returns a function that draws values of a type, often zero values, and a name of the type
var (
	ints = []int{7, 8, 0}
	f1   = func() {}
)

func drawInt(c *vt.C) int { return c.Range(-1, 2, "int") }
func drawString(c *vt.C) string {
	return c.Word("string", "", "a", "é", "<nil>", "100%d", "%")
}
func drawPtr(c *vt.C) *int {
	if i := c.Range(-1, 2, "pointer"); i >= 0 {
		return &ints[i]
	}
	return nil
}
func drawSlice(c *vt.C) []int {
	return [][]int{nil, {}, {1}, {1, 2}}[c.Range(0, 3, "slice")]
}
func drawMap(c *vt.C) map[string]int {
	return []map[string]int{nil, {}, {"a": 1}}[c.Range(0, 2, "map")]
}
func drawAny(c *vt.C) any {
	return []any{nil, 0, "", 1, "x", (*int)(nil), &ints[0], []int(nil), []int{}, point{}, point{1, 2, nil}, errA, math.Inf(1), (error)(nil), (func())(nil), "5%", "%v{%d}"}[c.Range(0, 16, "any")]
}
func drawErr(c *vt.C) error {
	return []error{nil, errA, errB, (*myErr)(nil), &myErr{1}}[c.Range(0, 4, "error")]
}
func drawPoint(c *vt.C) point {
	return []point{{}, {X: 1}, {S: []int{1}}, {S: []int{}}}[c.Range(0, 3, "point")]
}
func drawNamed(c *vt.C) named { return named(drawString(c)) }
func drawFunc(c *vt.C) func() { return []func(){nil, f1}[c.Range(0, 1, "func")] }

type myErr struct{ n int }

func (e *myErr) Error() string { return "my error" }

var errA, errB = errors.New("a"), errors.New("b")

// same is deep equality, functions and pointers by identity
func same(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.IsValid() != y.IsValid() {
		return false
	}
	if !x.IsValid() {
		return true
	}
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Func, reflect.Pointer:
		return x.Pointer() == y.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func isNil(a any) bool {
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.Slice:
		return v.IsNil()
	}
	return false
}

// ==== unions

// member is the access to one member of a union
type member struct {
	name string
	set  func() // draws a value, sets it and remembers it
	get  func() any
	want any
}

// checkUnion checks that only the current member is available, and has the value last set
func checkUnion(c *vt.C, desc string, ms []*member, cur int, which union.Which, str string) {
	if int(which) != cur || which.String() != ms[cur].name {
		c.Fatalf("%s: Which is %d %s, expected %s", desc, which, which, ms[cur].name)
	}
	if want := fmt.Sprintf("%v", ms[cur].want); str != want {
		c.Fatalf("%s: String is %q, expected %q", desc, str, want)
	}
	for i, m := range ms {
		var got any
		e, p := vt.Panics(func() { got = m.get() })
		switch {
		case i == cur && p:
			c.Fatalf("%s: member %s panics: %v", desc, m.name, e)
		case i == cur && !same(got, m.want):
			c.Fatalf("%s: member %s is %v, expected %v", desc, m.name, got, m.want)
		case i != cur && !p:
			c.Fatalf("%s: member %s is available as %v, the value is of member %s", desc, m.name, got, ms[cur].name)
		case i != cur:
			if err, is := e.(error); !is || !strings.Contains(err.Error(), m.name) {
				c.Fatalf("%s: member %s panics with %v", desc, m.name, e)
			}
		}
	}
}

func history(c *vt.C, ms []*member, cur int, which func() union.Which, str func() string, kind string) {
	desc := fmt.Sprintf("%s: of %s %v", kind, ms[cur].name, ms[cur].want)
	checkUnion(c, desc, ms, cur, which(), str())
	changes := 0
	for n := c.Range(0, 8, "sets"); n > 0; n-- {
		i := c.Range(0, len(ms)-1, "member")
		ms[i].set()
		if i != cur {
			changes++
		}
		cur = i
		desc += fmt.Sprintf(", %s = %v", ms[i].name, ms[i].want)
		checkUnion(c, desc, ms, cur, which(), str())
	}
	c.Class("%s", kind)
	if changes > 0 {
		c.NonTrivial("%s", desc)
	}
}

func two[TT, UU any](c *vt.C, kind string, dt func(*vt.C) TT, du func(*vt.C) UU) {
	var u union.Two[TT, UU]
	a, b := &member{name: "T"}, &member{name: "U"}
	a.set, a.get = func() { v := dt(c); a.want = v; u.SetT(v) }, func() any { return u.T() }
	b.set, b.get = func() { v := du(c); b.want = v; u.SetU(v) }, func() any { return u.U() }
	cur := c.Range(0, 1, "constructor")
	switch cur {
	case 0:
		v := dt(c)
		a.want, u = v, union.Of2T[TT, UU](v)
	case 1:
		v := du(c)
		b.want, u = v, union.Of2U[TT, UU](v)
	}
	copied, cw, was := u, []any{a.want, b.want}[cur], cur
	history(c, []*member{a, b}, cur, func() union.Which { return u.Which() }, func() string { return u.String() }, kind)
	// a copy is independent
	var got any
	if was == 0 {
		got = copied.T()
	} else {
		got = copied.U()
	}
	if int(copied.Which()) != was || !same(got, cw) {
		c.Fatalf("%s: a copy changed to %v, expected %v", kind, got, cw)
	}
}

func three[TT, UU, VV any](c *vt.C, kind string, dt func(*vt.C) TT, du func(*vt.C) UU, dv func(*vt.C) VV) {
	var u union.Three[TT, UU, VV]
	a, b, d := &member{name: "T"}, &member{name: "U"}, &member{name: "V"}
	a.set, a.get = func() { v := dt(c); a.want = v; u.SetT(v) }, func() any { return u.T() }
	b.set, b.get = func() { v := du(c); b.want = v; u.SetU(v) }, func() any { return u.U() }
	d.set, d.get = func() { v := dv(c); d.want = v; u.SetV(v) }, func() any { return u.V() }
	cur := c.Range(0, 2, "constructor")
	switch cur {
	case 0:
		v := dt(c)
		a.want, u = v, union.Of3T[TT, UU, VV](v)
	case 1:
		v := du(c)
		b.want, u = v, union.Of3U[TT, UU, VV](v)
	case 2:
		v := dv(c)
		d.want, u = v, union.Of3V[TT, UU, VV](v)
	}
	history(c, []*member{a, b, d}, cur, func() union.Which { return u.Which() }, func() string { return u.String() }, kind)
}

func four[TT, UU, VV, WW any](c *vt.C, kind string, dt func(*vt.C) TT, du func(*vt.C) UU, dv func(*vt.C) VV, dw func(*vt.C) WW) {
	var u union.Four[TT, UU, VV, WW]
	a, b, d, e := &member{name: "T"}, &member{name: "U"}, &member{name: "V"}, &member{name: "W"}
	a.set, a.get = func() { v := dt(c); a.want = v; u.SetT(v) }, func() any { return u.T() }
	b.set, b.get = func() { v := du(c); b.want = v; u.SetU(v) }, func() any { return u.U() }
	d.set, d.get = func() { v := dv(c); d.want = v; u.SetV(v) }, func() any { return u.V() }
	e.set, e.get = func() { v := dw(c); e.want = v; u.SetW(v) }, func() any { return u.W() }
	cur := c.Range(0, 3, "constructor")
	switch cur {
	case 0:
		v := dt(c)
		a.want, u = v, union.Of4T[TT, UU, VV, WW](v)
	case 1:
		v := du(c)
		b.want, u = v, union.Of4U[TT, UU, VV, WW](v)
	case 2:
		v := dv(c)
		d.want, u = v, union.Of4V[TT, UU, VV, WW](v)
	case 3:
		v := dw(c)
		e.want, u = v, union.Of4W[TT, UU, VV, WW](v)
	}
	history(c, []*member{a, b, d, e}, cur, func() union.Which { return u.Which() }, func() string { return u.String() }, kind)
}

func TestUnions(t *testing.T) {
	vt.Check(t, 20000, "unions of two to four types (also the same, interface and nillable types) constructed and set up to 8 times; non-trivial if the member changes", func(c *vt.C) {
		switch c.Range(0, 8, "type") {
		case 0:
			two(c, "Two[int, string]", drawInt, drawString)
		case 1:
			two(c, "Two[int, int]", drawInt, drawInt)
		case 2:
			two(c, "Two[any, *int]", drawAny, drawPtr)
		case 3:
			three(c, "Three[int, named, error]", drawInt, drawNamed, drawErr)
		case 4:
			three(c, "Three[any, any, any]", drawAny, drawAny, drawAny)
		case 5:
			three(c, "Three[point, []int, map]", drawPoint, drawSlice, drawMap)
		case 6:
			four(c, "Four[int, string, *int, []int]", drawInt, drawString, drawPtr, drawSlice)
		case 7:
			four(c, "Four[string, string, string, string]", drawString, drawString, drawString, drawString)
		default:
			four(c, "Four[any, error, point, any]", drawAny, drawErr, drawPoint, drawAny)
		}
	})
}

// ==== Maybe

func maybe[T any](c *vt.C, kind string, draw func(*vt.C) T) {
	var (
		m    union.Maybe[T]
		val  T
		desc = kind

		present bool
	)
	set := func(v T) { val, present = v, !isNil(v) }
	switch c.Range(0, 4, "constructor") {
	case 0:
		desc += ": zero value"
	case 1:
		v := draw(c)
		m, desc = union.Of(v), fmt.Sprintf("%s: Of(%v)", desc, any(v))
		set(v)
	case 2:
		m, desc = union.Empty[T](), desc+": Empty"
	case 3:
		v := draw(c)
		desc = fmt.Sprintf("%s: Present(%v)", desc, any(v))
		if e, p := vt.Panics(func() { m = union.Present(v) }); p != isNil(v) {
			c.Fatalf("%s: panics %v with %v", desc, p, e)
		}
		if !isNil(v) {
			set(v)
		}
	default:
		var vs []T
		for n := c.Range(0, 3, "n"); n > 0; n-- {
			vs = append(vs, draw(c))
		}
		m, desc = union.First(vs), fmt.Sprintf("%s: First(%v)", desc, any(vs))
		if len(vs) > 0 {
			set(vs[0])
		}
	}
	changes := 0
	checkMaybe := func(m union.Maybe[T], present bool, val T) {
		if m.Present() != present || m.Empty() == present {
			c.Fatalf("%s: present %v, empty %v; expected present %v", desc, m.Present(), m.Empty(), present)
		}
		var got T
		e, p := vt.Panics(func() { got = m.Get() })
		if p == present || present && !same(got, val) {
			c.Fatalf("%s: Get is %v, panics %v; expected %v", desc, any(got), e, any(val))
		}
		els := draw(c)
		want := els
		if present {
			want = val
		}
		if got := m.OrElse(els); !same(got, want) {
			c.Fatalf("%s: OrElse(%v) is %v, expected %v", desc, any(els), any(got), any(want))
		}
		var zv T
		got, err := m.OrError(errB)
		if present && (!same(got, val) || err != nil) || !present && (!same(got, zv) || err != errB) {
			c.Fatalf("%s: OrError is %v, %v", desc, any(got), err)
		}
		if s := m.String(); present && s != fmt.Sprintf("%v", any(val)) || !present && !strings.HasPrefix(s, "Empty") {
			c.Fatalf("%s: String is %q", desc, s)
		}
	}
	checkMaybe(m, present, val)
	type snapshot struct {
		m       union.Maybe[T]
		present bool
		val     T
	}
	var snaps []snapshot
	for n := c.Range(0, 6, "changes"); n > 0; n-- {
		snaps = append(snaps, snapshot{m, present, val})
		before := present
		switch c.Range(0, 2, "change") {
		case 0:
			v := draw(c)
			desc += fmt.Sprintf(", Set(%v)", any(v))
			m.Set(v)
			val, present = v, !isNil(v)
		case 1:
			desc += ", SetEmpty"
			m.SetEmpty()
			var zv T
			val, present = zv, false
		default:
			v := draw(c)
			desc += fmt.Sprintf(", SetOrError(%v)", any(v))
			if err := m.SetOrError(v); (err != nil) != present {
				c.Fatalf("%s: error %v", desc, err)
			}
			if !present {
				val, present = v, !isNil(v)
			}
		}
		if before != present {
			changes++
		}
		checkMaybe(m, present, val)
	}
	for _, s := range snaps {
		checkMaybe(s.m, s.present, s.val) // copies are independent
	}
	c.Class("%s", kind)
	if changes > 0 {
		c.NonTrivial("%s", desc)
	}
}

func TestMaybe(t *testing.T) {
	vt.Check(t, 20000, "a Maybe of several types, constructed in every way, and set, emptied, and set if empty up to 6 times; non-trivial if it changes between present and empty", func(c *vt.C) {
		switch c.Range(0, 8, "type") {
		case 0:
			maybe(c, "Maybe[int]", drawInt)
		case 1:
			maybe(c, "Maybe[string]", drawString)
		case 2:
			maybe(c, "Maybe[*int]", drawPtr)
		case 3:
			maybe(c, "Maybe[[]int]", drawSlice)
		case 4:
			maybe(c, "Maybe[map]", drawMap)
		case 5:
			maybe(c, "Maybe[any]", drawAny)
		case 6:
			maybe(c, "Maybe[error]", drawErr)
		case 7:
			maybe(c, "Maybe[point]", drawPoint)
		default:
			maybe(c, "Maybe[func]", drawFunc)
		}
	})
}

// ==== Result

func result[R any](c *vt.C, kind string, draw func(*vt.C) R) {
	v, err := draw(c), []error{nil, errA, iter.EOI}[c.Range(0, 2, "error")]
	zero := reflect.ValueOf(&v).Elem().IsZero()
	var (
		zv   R
		r    union.Result[R]
		want = v
		werr error
		desc string
	)
	switch c.Range(0, 4, "constructor") {
	case 0:
		r, desc = union.OfResult(v), fmt.Sprintf("%s: OfResult(%v)", kind, any(v))
	case 1:
		desc = fmt.Sprintf("%s: OfError(%v)", kind, err)
		e, p := vt.Panics(func() { r = union.OfError[R](err) })
		if p != (err == nil) {
			c.Fatalf("%s: panics %v", desc, e)
		}
		if p {
			return
		}
		want, werr = zv, err
	case 2:
		desc = fmt.Sprintf("%s: OfResultError(%v, %v)", kind, any(v), err)
		e, p := vt.Panics(func() { r = union.OfResultError(v, err) })
		if p != (err != nil && !zero) {
			c.Fatalf("%s: panics %v with %v", desc, p, e)
		}
		if p {
			return
		}
		werr = err
	case 3: // of a function result
		desc = fmt.Sprintf("%s: of the iterator of %v", kind, any(v))
		it := iter.OfOne(v)
		r = iter.Maybe(it)
		if e, p := vt.Panics(func() {
			for i := 0; i < 2; i++ {
				if end := iter.Maybe(it); end.Error() != iter.EOI || !end.HasError() || !same(end.Get(), zv) {
					c.Fatalf("%s: then %v", desc, end)
				}
			}
		}); p {
			panic(e)
		}
	default:
		desc = kind + ": zero value"
		want = zv
	}
	if r.HasResult() != (werr == nil) || r.HasError() != (werr != nil) || r.Error() != werr || !same(r.Get(), want) {
		c.Fatalf("%s: result %v %v, error %v %v", desc, r.HasResult(), any(r.Get()), r.HasError(), r.Error())
	}
	s := fmt.Sprintf("%v", any(want))
	if werr != nil {
		s = werr.Error()
	}
	if r.String() != s {
		c.Fatalf("%s: String is %q, expected %q", desc, r.String(), s)
	}
	c.Class("%s error %v", kind, werr)
	if !zero || werr != nil {
		c.NonTrivial("%s", desc)
	}
}

func TestResult(t *testing.T) {
	vt.Check(t, 12000, "results and errors of several types, interface types included; non-trivial if an error or not the zero value", func(c *vt.C) {
		switch c.Range(0, 7, "type") {
		case 0:
			result(c, "Result[int]", drawInt)
		case 1:
			result(c, "Result[string]", drawString)
		case 2:
			result(c, "Result[*int]", drawPtr)
		case 3:
			result(c, "Result[[]int]", drawSlice)
		case 4:
			result(c, "Result[any]", drawAny)
		case 5:
			result(c, "Result[error]", drawErr)
		case 6:
			result(c, "Result[point]", drawPoint)
		default:
			result(c, "Result[func]", drawFunc)
		}
	})
}

// ==== reflective access

type derived union.Maybe[int] // not a Maybe
type Maybe[T any] struct{ v T }

func (m Maybe[T]) Present() bool { return true }
func (m Maybe[T]) Get() T        { return m.v }

func reflective[T any](c *vt.C, kind string, draw func(*vt.C) T) {
	var (
		typ   = reflect.TypeFor[T]()
		m     union.Maybe[T]
		v     = draw(c)
		depth = c.Range(0, 4, "pointers")
		nilAt = c.Range(1, 8, "nil pointer") // the pointer at this level is nil
	)
	if c.Bool("set") {
		m.Set(v)
	}
	if nilAt > depth {
		nilAt = 0
	}
	box := &m
	if c.Bool("field") {
		s := &struct {
			A int
			M union.Maybe[T]
		}{1, m}
		box = &s.M
	}
	dst := reflect.ValueOf(box).Elem() // addressable
	addressable := depth > 0 || c.Bool("addressable")
	if !addressable {
		dst = reflect.ValueOf(*box)
	}
	for i := 1; i <= depth; i++ {
		p := reflect.New(dst.Type())
		if i == 1 {
			p = reflect.ValueOf(box)
		}
		p.Elem().Set(dst)
		// pointer types may have names
		if c.Range(0, 3, "named pointer") == 0 {
			for _, n := range []reflect.Type{reflect.TypeFor[ptrTo[T]](), reflect.TypeFor[ptrPtrTo[T]](), reflect.TypeFor[ptrNamed[T]]()} {
				if n.Elem() == p.Type().Elem() {
					p = p.Convert(n)
					break
				}
			}
		}
		if i == nilAt {
			p = reflect.Zero(p.Type())
		}
		dst = p
	}
	desc := fmt.Sprintf("%s %v, %d pointers, nil at %d, addressable %v", kind, m, depth, nilAt, addressable)
	if got := ur.GetMaybeType(dst.Type()); got != typ {
		c.Fatalf("%s: type %v", desc, got)
	}
	check := func(what string, present bool, val T) {
		if got := ur.MaybeValueIsPresent(dst); got != present {
			c.Fatalf("%s%s: present %v", desc, what, got)
		}
		got := ur.GetMaybeValue(dst)
		if got.IsValid() != present {
			c.Fatalf("%s%s: value %v", desc, what, got)
		}
		if present && (got.Type() != typ || !same(got.Interface(), any(val))) {
			c.Fatalf("%s%s: value %v of type %v", desc, what, got, got.Type())
		}
	}
	reach := nilAt == 0
	check("", reach && m.Present(), v)

	nv := draw(c)
	what := fmt.Sprintf(", set to %v", any(nv))
	err := ur.SetMaybeValue(dst, reflect.ValueOf(&nv).Elem())
	if (err == nil) != (reach && addressable) {
		c.Fatalf("%s%s: error %v", desc, what, err)
	}
	if err == nil {
		check(what, !isNil(nv), nv)
		if box.Present() != !isNil(nv) || box.Present() && !same(box.Get(), nv) {
			c.Fatalf("%s%s: original is %v", desc, what, *box)
		}
	} else {
		check(what, reach && m.Present(), v)
	}
	// a value of another type is an error and changes nothing
	for n := c.Range(1, 3, "others"); n > 0; n-- {
		others := []any{nil, struct{ Z int8 }{1}, int8(1), int(2), 3.0, "4", named("5"), []byte("6"), []int{7}, slice{8}, &ints[0], pointer(&ints[0]), errors.New("9"), point{X: 1}, derivedPoint{X: 1}, derived{}, m, &nv, fmt.Stringer(&strings.Builder{}), ou.Maybe[int]{V: 1}}
		other := reflect.ValueOf(others[c.Range(0, len(others)-1, "other")])
		if other.IsValid() && other.Type().AssignableTo(typ) {
			continue
		}
		now := *box
		var err error
		if e, p := vt.Panics(func() { err = ur.SetMaybeValue(dst, other) }); p || err == nil {
			c.Fatalf("%s%s, set to %v: error %v, panics %v", desc, what, other, err, e)
		}
		if now.Present() != box.Present() || now.Present() && !same(now.Get(), box.Get()) {
			c.Fatalf("%s%s, set to %v: changed to %v", desc, what, other, *box)
		}
	}
	err = ur.SetMaybeValueEmpty(dst)
	if (err == nil) != (reach && addressable) {
		c.Fatalf("%s, set empty: error %v", desc, err)
	}
	if err == nil {
		check(", set empty", false, v)
		if box.Present() {
			c.Fatalf("%s, set empty: original is %v", desc, *box)
		}
	}
	c.Class("%s pointers %d", kind, depth)
	if reach && addressable && !isNil(nv) {
		c.NonTrivial("%s%s", desc, what)
	}
}

type (
	ptrTo[T any]    *union.Maybe[T]
	ptrPtrTo[T any] **union.Maybe[T]
	ptrNamed[T any] *ptrTo[T]
)

func TestReflective(t *testing.T) {
	vt.Check(t, 15000, "reflective access to a Maybe of several types behind 0 to 4 pointers, of named types too, any of them nil, addressable or not; non-trivial if it can be set to a value", func(c *vt.C) {
		switch c.Range(0, 8, "type") {
		case 0:
			reflective(c, "int", drawInt)
		case 1:
			reflective(c, "named", drawNamed)
		case 2:
			reflective(c, "*int", drawPtr)
		case 3:
			reflective(c, "[]int", drawSlice)
		case 4:
			reflective(c, "any", drawAny)
		case 5:
			reflective(c, "error", drawErr)
		case 6:
			reflective(c, "point", drawPoint)
		case 7:
			reflective(c, "Maybe[int]", func(c *vt.C) union.Maybe[int] { return union.Of(drawInt(c)) })
		default: // not a Maybe
			i, two, d, o, o2, r := 1, union.Of2T[int, string](1), derived{}, Maybe[int]{3}, ou.Maybe[int]{V: 1}, union.OfResult(1)
			pi := &i
			vals := []any{nil, 1, &i, &pi, two, &two, d, &d, o, &o, o2, &o2, r, &r, "x", (*int)(nil), []union.Maybe[int]{{}}, tuple.Of2(1, 2)}
			v := reflect.ValueOf(vals[c.Range(0, len(vals)-1, "value")])
			if v.IsValid() && ur.GetMaybeType(v.Type()) != nil || ur.MaybeValueIsPresent(v) || ur.GetMaybeValue(v).IsValid() ||
				ur.SetMaybeValue(v, reflect.ValueOf(1)) == nil || ur.SetMaybeValueEmpty(v) == nil {
				c.Fatalf("%v is taken for a Maybe", v)
			}
			c.Class("not a Maybe")
		}
	})
}

// ==== tuples

func TestTuples(t *testing.T) {
	vt.Check(t, 6000, "tuples of two to four values; non-trivial if the values differ", func(c *vt.C) {
		a, b, d, e := drawAny(c), drawAny(c), drawAny(c), drawAny(c)
		eq := func(desc string, want []any, got ...any) {
			for i := range want {
				if !same(got[i], want[i]) {
					c.Fatalf("%s: value %d is %v, expected %v", desc, i, got[i], want[i])
				}
			}
		}
		strs := func(names string, vals ...any) string {
			var s []string
			for i, v := range vals {
				s = append(s, fmt.Sprintf("%c: %v", names[i], v))
			}
			return "{" + strings.Join(s, ", ") + "}"
		}
		t2, t3, t4 := tuple.Of2(a, b), tuple.Of3(a, b, d), tuple.Of4(a, b, d, e)
		s2, s3, s4 := tuple.Of2Same(a, b), tuple.Of3Same(a, b, d), tuple.Of4Same(a, b, d, e)
		eq("Of2", []any{a, b, a, b}, t2.T, t2.U, s2.T, s2.U)
		eq("Of3", []any{a, b, d, a, b, d}, t3.T, t3.U, t3.V, s3.T, s3.U, s3.V)
		eq("Of4", []any{a, b, d, e, a, b, d, e}, t4.T, t4.U, t4.V, t4.W, s4.T, s4.U, s4.V, s4.W)
		x, y := t2.Values()
		eq("Two.Values", []any{a, b}, x, y)
		x, y, z := t3.Values()
		eq("Three.Values", []any{a, b, d}, x, y, z)
		x, y, z, w := t4.Values()
		eq("Four.Values", []any{a, b, d, e}, x, y, z, w)
		if t2.String() != strs("TU", a, b) || t3.String() != strs("TUV", a, b, d) || t4.String() != strs("TUVW", a, b, d, e) {
			c.Fatalf("Strings are %s %s %s", t2, t3, t4)
		}
		if !same(a, b) && !same(b, d) && !same(d, e) {
			c.NonTrivial("%v %v %v %v", a, b, d, e)
		}
	})
}
