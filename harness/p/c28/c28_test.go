package c28

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/union"
	"verif/harness/vt"
)

// ==== predicates

func TestLogic(t *testing.T) {
	vt.Check(t, 20000, "nested conjunctions, disjunctions and negations of up to 6 recorded predicates each, applied to several values; non-trivial if evaluation stops before the last predicate and there is nesting", func(c *vt.C) {
		var trace, want []int
		n := 0
		short := false
		// build a tree of filters, and the same as a model that records the calls that short-circuit logic makes
		var build func(depth int) (func(int) bool, func(int) bool, string)
		build = func(depth int) (func(int) bool, func(int) bool, string) {
			op := 0
			if depth > 0 {
				op = c.Range(0, 3, "op")
			}
			switch op {
			case 0:
				n++
				id, mask := n, c.Range(0, 15, "mask") // true for the values in the mask
				f := func(x int) bool { return mask>>uint(x)&1 == 1 }
				return func(x int) bool { trace = append(trace, id); return f(x) },
					func(x int) bool { want = append(want, id); return f(x) }, fmt.Sprintf("%04b", mask)
			case 1:
				f, m, d := build(depth - 1)
				return funcs.Not(f), func(x int) bool { return !m(x) }, "not " + d
			}
			var fs, ms []func(int) bool
			var ds []string
			for k := c.Range(0, 6, "operands"); k > 0; k-- {
				f, m, d := build(depth - 1)
				fs, ms, ds = append(fs, f), append(ms, m), append(ds, d)
			}
			if op == 2 {
				return funcs.And(fs...), func(x int) bool {
					for i, m := range ms {
						if !m(x) {
							short = short || i < len(ms)-1
							return false
						}
					}
					return true
				}, "and(" + strings.Join(ds, " ") + ")"
			}
			return funcs.Or(fs...), func(x int) bool {
				for i, m := range ms {
					if m(x) {
						short = short || i < len(ms)-1
						return true
					}
				}
				return len(ms) == 0 // documented
			}, "or(" + strings.Join(ds, " ") + ")"
		}
		f, m, desc := build(c.Range(1, 3, "depth"))
		for k := 0; k < 6; k++ {
			x := k % 4
			trace, want = nil, nil
			got, exp := f(x), m(x)
			if got != exp || fmt.Sprint(trace) != fmt.Sprint(want) {
				c.Fatalf("%s of %d is %v, evaluating %v; expected %v, evaluating %v", desc, x, got, trace, exp, want)
			}
		}
		if short && strings.Count(desc, "(") > 1 {
			c.NonTrivial("%s", desc)
		}
	})
}

func ordered[T constraint.Ordered](c *vt.C, draw func(string) T) {
	a, b := draw("a"), draw("b")
	if c.Range(0, 3, "equal") == 0 {
		b = a
	}
	checks := []struct {
		name string
		got  bool
		want bool
	}{
		{"LessThan", funcs.LessThan(b)(a), a < b},
		{"LessThanEqual", funcs.LessThanEqual(b)(a), a <= b},
		{"Equal", funcs.Equal(b)(a), a == b},
		{"GreaterThan", funcs.GreaterThan(b)(a), a > b},
		{"GreaterThanEqual", funcs.GreaterThanEqual(b)(a), a >= b},
	}
	for _, k := range checks {
		if k.got != k.want {
			c.Fatalf("%s(%v)(%v) is %v", k.name, b, a, k.got)
		}
	}
	in := []T{}
	want := false
	size := c.Range(0, 4, "in")
	if c.Range(0, 9, "many") == 0 {
		size = c.SizeOr(60, 1000, "in")
	}
	for n := size; n > 0; n-- {
		v := draw("element")
		if c.Range(0, 4, "same") == 0 {
			v = a
		}
		in = append(in, v)
		want = want || v == a
	}
	was := fmt.Sprintf("%#v", in)
	isIn := funcs.In(in...)
	for k := 0; k < 3; k++ {
		if got := isIn(a); got != want {
			c.Fatalf("In(%v)(%v) is %v", in, a, got)
		}
		if k < len(in) {
			if v := in[len(in)-1-k]; isIn(v) != (v == v) {
				c.Fatalf("In(%v)(%v) is %v", in, v, v != v)
			}
		}
		if now := fmt.Sprintf("%#v", in); now != was {
			c.Fatalf("In(%v...)(%v) changes the list to %v", was, a, now)
		}
	}
	c.Class("%T", a)
	if a != b {
		c.NonTrivial("%T %v %v %v", a, a, b, in)
	}
}

func signed[T constraint.Signed](c *vt.C, draw func(string) T) {
	a := draw("a")
	if funcs.IsNegative[T]()(a) != (a < 0) || funcs.IsNonNegative[T]()(a) != (a >= 0) || funcs.IsPositive[T]()(a) != (a > 0) {
		c.Fatalf("sign of %T %v: negative %v, not negative %v, positive %v", a, a, funcs.IsNegative[T]()(a), funcs.IsNonNegative[T]()(a), funcs.IsPositive[T]()(a))
	}
}

type Named int16
type Word string
type Temp float64

func ints[T vt.Integer](c *vt.C) func(string) T {
	return func(l string) T { return vt.DrawInt[T](c.T, l) }
}
func floats[T vt.Float](c *vt.C) func(string) T {
	return func(l string) T {
		if c.Range(0, 3, "special") == 0 {
			return T([]float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, -1}[c.Range(0, 6, l)])
		}
		return T(vt.DrawFloat64(c.T, l))
	}
}
func strs[T ~string](c *vt.C) func(string) T {
	return func(l string) T {
		return T(c.Word(l, "", "a", "b", "ab", "B", "é", "aa", "\xff", "日", "\x00"))
	}
}

func TestComparators(t *testing.T) {
	vt.Check(t, 25000, "comparators of two values of every kind of ordered type, infinities and NaN included, and membership in lists of up to 4 and sometimes 60, asked several times; non-trivial if the values differ", func(c *vt.C) {
		switch c.Range(0, 16, "type") {
		case 0:
			ordered(c, ints[int](c))
			signed(c, ints[int](c))
		case 1:
			ordered(c, ints[int8](c))
			signed(c, ints[int8](c))
		case 2:
			ordered(c, ints[int16](c))
			signed(c, ints[int16](c))
		case 3:
			ordered(c, ints[int32](c))
			signed(c, ints[int32](c))
		case 4:
			ordered(c, ints[int64](c))
			signed(c, ints[int64](c))
		case 5:
			ordered(c, ints[uint](c))
		case 6:
			ordered(c, ints[uint8](c))
		case 7:
			ordered(c, ints[uint16](c))
		case 8:
			ordered(c, ints[uint32](c))
		case 9:
			ordered(c, ints[uint64](c))
		case 10:
			ordered(c, floats[float32](c))
			signed(c, floats[float32](c))
		case 11:
			ordered(c, floats[float64](c))
			signed(c, floats[float64](c))
		case 12:
			ordered(c, strs[string](c))
		case 13:
			ordered(c, strs[Word](c))
		case 14:
			ordered(c, ints[Named](c))
			signed(c, ints[Named](c))
		case 15:
			ordered(c, floats[Temp](c))
			signed(c, floats[Temp](c))
		default: // comparable but not ordered
			pool := []any{nil, 1, int8(1), 1.0, "1", [2]int{1, 2}, [2]int{1, 3}, struct{ a any }{1}, true, false, &struct{ x int }{}, math.NaN(), 1i}
			a, b, d := pool[c.Range(0, 12, "a")], pool[c.Range(0, 12, "b")], pool[c.Range(0, 12, "c")]
			if funcs.Equal(b)(a) != (a == b) || funcs.In(b, d)(a) != (a == b || a == d) || funcs.In[any]()(a) {
				c.Fatalf("Equal or In of %v %v %v", a, b, d)
			}
			c.Class("any")
		}
	})
}

// ==== composition

func TestCompose(t *testing.T) {
	vt.Check(t, 10000, "compositions of 1 to 12 recorded functions, of the same type and of different types; non-trivial if of at least three functions that differ", func(c *vt.C) {
		var calls []int
		ks := make([][2]int, 12)
		for i := range ks {
			ks[i] = [2]int{c.Range(-3, 3, "factor"), c.Range(-9, 9, "term")}
		}
		f := func(i int) func(int) int {
			return func(x int) int { calls = append(calls, i); return ks[i][0]*x + ks[i][1] }
		}
		n := c.Range(1, 12, "functions")
		var fs []func(int) int
		for i := 1; i < n; i++ {
			fs = append(fs, f(i))
		}
		g := funcs.Compose(f(0), fs...)
		for k := 0; k < 2; k++ {
			x := c.Range(-5, 5, "x")
			calls = nil
			got, want := g(x), x
			for i := 0; i < n; i++ {
				want = ks[i][0]*want + ks[i][1]
			}
			if got != want || len(calls) != n {
				c.Fatalf("%v of %d is %d by calls %v, expected %d", ks[:n], x, got, calls, want)
			}
		}

		// functions between types alternate
		toS := func(i int) func(int) string {
			return func(x int) string { calls = append(calls, i); return fmt.Sprint(x + ks[i][1]) }
		}
		toI := func(i int) func(string) int {
			return func(s string) int {
				calls = append(calls, i)
				r := ks[i][1]
				for _, b := range []byte(s) {
					r = r*3 + int(b) - '0'
				}
				return r
			}
		}
		toF := func(i int) func(int) float64 {
			return func(x int) float64 { calls = append(calls, i); return float64(x) / 4 * float64(ks[i][0]) }
		}
		back := func(i int) func(float64) int {
			return func(x float64) int { calls = append(calls, i); return int(x*4) + ks[i][1] }
		}
		x := c.Range(-50, 50, "x")
		s := []func(int) int{} // models of prefixes
		_ = s
		a, b, d, e := toS(0), toI(1), toF(2), back(3)
		a2, b2, d2, e2 := toS(4), toI(5), toF(6), back(7)
		a3, b3 := toS(8), toI(9)
		check := func(name string, n int, got, want any) {
			if got != want {
				c.Fatalf("%s of %d is %v, expected %v, for %v", name, x, got, want, ks)
			}
		}
		calls = nil
		check("Compose2", 2, funcs.Compose2(a, b)(x), b(a(x)))
		check("Compose3", 3, funcs.Compose3(a, b, d)(x), d(b(a(x))))
		check("Compose4", 4, funcs.Compose4(a, b, d, e)(x), e(d(b(a(x)))))
		check("Compose5", 5, funcs.Compose5(a, b, d, e, a2)(x), a2(e(d(b(a(x))))))
		check("Compose6", 6, funcs.Compose6(a, b, d, e, a2, b2)(x), b2(a2(e(d(b(a(x)))))))
		check("Compose7", 7, funcs.Compose7(a, b, d, e, a2, b2, d2)(x), d2(b2(a2(e(d(b(a(x))))))))
		check("Compose8", 8, funcs.Compose8(a, b, d, e, a2, b2, d2, e2)(x), e2(d2(b2(a2(e(d(b(a(x)))))))))
		check("Compose9", 9, funcs.Compose9(a, b, d, e, a2, b2, d2, e2, a3)(x), a3(e2(d2(b2(a2(e(d(b(a(x))))))))))
		check("Compose10", 10, funcs.Compose10(a, b, d, e, a2, b2, d2, e2, a3, b3)(x), b3(a3(e2(d2(b2(a2(e(d(b(a(x)))))))))))
		if n := 2 * (2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10); len(calls) != n {
			c.Fatalf("the composed functions were called %d times, expected %d", len(calls), n)
		}
		if n > 2 && ks[0] != ks[1] && ks[1] != ks[2] {
			c.NonTrivial("%v", ks[:n])
		}
	})
}

// ==== choices, errors, suppliers

var errX, errY = errors.New("x"), errors.New("y")

func TestChoices(t *testing.T) {
	vt.Check(t, 12000, "ternaries, must functions, suppliers and value selectors with drawn values, errors and numbers of calls; non-trivial if an error or more than one call", func(c *vt.C) {
		a, b, d := c.Range(-99, 99, "a"), c.Range(-99, 99, "b"), fmt.Sprint(c.Range(-99, 99, "c"))
		cond := c.Bool("cond")
		want := b
		if cond {
			want = a
		}
		if got := funcs.Ternary(cond, a, b); got != want {
			c.Fatalf("Ternary(%v, %d, %d) is %d", cond, a, b, got)
		}
		var calls []string
		ft, ff := func() int { calls = append(calls, "t"); return a }, func() int { calls = append(calls, "f"); return b }
		wantCalls := map[bool]string{true: "t", false: "f"}[cond]
		switch c.Range(0, 3, "nil functions") {
		case 0:
			ft = nil
		case 1:
			ff = nil
		}
		if cond && ft == nil || !cond && ff == nil {
			want, wantCalls = 0, ""
		}
		if got := funcs.TernaryResult(cond, ft, ff); got != want || strings.Join(calls, "") != wantCalls {
			c.Fatalf("TernaryResult(%v, %d, %d) is %d, calls %v", cond, a, b, got, calls)
		}

		// must
		err := []error{nil, errX, errY, fmt.Errorf("wrap %w", errX), (*myErr)(nil)}[c.Range(0, 4, "error")]
		var x, y int
		var z string
		for i, f := range []func(){
			func() { funcs.Must(err) },
			func() { x = funcs.MustValue(a, err) },
			func() { x, y = funcs.MustValue2(a, b, err) },
			func() { x, y, z = funcs.MustValue3(a, b, d, err) },
		} {
			x, y, z = 0, 0, ""
			e, p := vt.Panics(f)
			if p != (err != nil) || p && e != any(err) {
				c.Fatalf("must function of %d values and error %v: panics %v with %v", i, err, p, e)
			}
			if !p && (i > 0 && x != a || i > 1 && y != b || i > 2 && z != d) {
				c.Fatalf("must function of %d values %d %d %s: %d %d %s", i, a, b, d, x, y, z)
			}
		}

		// selectors
		if funcs.FirstValue2(a, d) != a || funcs.SecondValue2(a, d) != d || funcs.FirstValue3(a, d, b) != a || funcs.SecondValue3(a, d, b) != d || funcs.ThirdValue3(a, b, d) != d {
			c.Fatalf("value selectors of %d %d %s", a, b, d)
		}

		// suppliers
		n := c.Range(0, 5, "calls")
		made := 0
		s1, s2 := funcs.SupplierOf(a), funcs.SupplierCached(func() int { made++; return a * made })
		s3 := funcs.SupplierCached(func() any { made += 100; return nil }) // zero value, and another supplier
		for i := 0; i < n; i++ {
			if g1, g2, g3 := s1(), s2(), s3(); g1 != a || g2 != a || g3 != nil {
				c.Fatalf("call %d of suppliers of %d: %d, %d, %v", i, a, g1, g2, g3)
			}
		}
		if wantMade := map[bool]int{true: 101, false: 0}[n > 0]; made != wantMade {
			c.Fatalf("%d calls of cached suppliers call the suppliers %d times", n, made)
		}

		// zero and empty
		for _, v := range []any{a, d, err, 0, "", nil, []int{}, []int(nil), [2]int{}, struct{ a, b int }{0, a}, (*int)(nil), false, 0.5, Named(a), Word("w"), Temp(b), myErr{}, time.Time{}, time.Time{}.In(time.FixedZone("A", 3600)), union.Maybe[int]{}, union.Of(a)} {
			zero := !reflect.ValueOf(v).IsValid() || reflect.ValueOf(v).IsZero()
			var got any
			e, p := vt.Panics(func() { got = funcs.MustNonZero(v) })
			if p != zero || !p && !reflect.DeepEqual(got, v) {
				c.Fatalf("MustNonZero(%T %v) is %v, panics %v with %v", v, v, got, p, e)
			}
		}
		if _, p := vt.Panics(func() { funcs.MustNonZero(a) }); p != (a == 0) {
			c.Fatalf("MustNonZero(%d) panics %v", a, p)
		}
		slc := make([]int, c.Range(0, 3, "length"))
		if c.Bool("nil slice") {
			slc = nil
		}
		var res []int
		if _, p := vt.Panics(func() { res = funcs.MustNonEmptySlice(slc) }); p != (len(slc) == 0) || !p && len(res) != len(slc) {
			c.Fatalf("MustNonEmptySlice(%v) is %v, panics %v", slc, res, p)
		}
		if err != nil || n > 1 {
			c.NonTrivial("%d %d %s %v %v %d", a, b, d, cond, err, n)
		}
	})
}

type myErr struct{}

func (*myErr) Error() string { return "my error" }

// ==== nil

type Iface interface{ Error() string }

// checkNil compares the nil filters of a type with whether its values are nil
func checkNil[T any](c *vt.C, isnil bool, v T) {
	typ := reflect.TypeFor[T]()
	nillable := false
	switch typ.Kind() {
	case reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.Slice:
		nillable = true
	}
	if got := funcs.Nillable(typ); got != nillable {
		c.Fatalf("Nillable(%v) is %v", typ, got)
	}
	if _, p := vt.Panics(func() { funcs.MustBeNillable(typ) }); p == nillable {
		c.Fatalf("MustBeNillable(%v) panics %v", typ, p)
	}
	var f, g func(T) bool
	if _, p := vt.Panics(func() { f = funcs.IsNil[T]() }); p == nillable {
		c.Fatalf("IsNil of %v panics %v", typ, p)
	}
	if _, p := vt.Panics(func() { g = funcs.IsNonNil[T]() }); p == nillable {
		c.Fatalf("IsNonNil of %v panics %v", typ, p)
	}
	if nillable && (f(v) != isnil || g(v) == isnil) {
		c.Fatalf("%v %v: IsNil %v, IsNonNil %v", typ, v, f(v), g(v))
	}
	if got := funcs.IsNilValue(v); got != isnil {
		c.Fatalf("IsNilValue(%v %v) is %v", typ, any(v), got)
	}
	var got T
	_, p := vt.Panics(func() { got = funcs.MustNonNilValue(v) })
	dyn := reflect.ValueOf(v)
	if ok := dyn.IsValid() && funcs.Nillable(dyn.Type()) && !isnil; p == ok || ok && reflect.ValueOf(got).Pointer() != dyn.Pointer() {
		c.Fatalf("MustNonNilValue(%v %v) panics %v", typ, any(v), p)
	}
	c.Class("%v nil %v", typ, isnil)
	c.NonTrivial("%v %v", typ, isnil)
}

func TestNil(t *testing.T) {
	vt.Check(t, 4000, "nil and other values of every kind of type; all are non-trivial", func(c *vt.C) {
		z := c.Bool("nil")
		i := 5
		switch c.Range(0, 15, "type") {
		case 0:
			checkNil(c, z, funcs.Ternary(z, nil, &i))
		case 1:
			checkNil(c, z, funcs.Ternary(z, nil, []int{}))
		case 2:
			checkNil(c, z, funcs.Ternary(z, nil, map[string]int{}))
		case 3:
			checkNil(c, z, funcs.Ternary(z, nil, make(chan int)))
		case 4:
			checkNil(c, z, funcs.Ternary(z, nil, func() {}))
		case 5:
			p := &i
			checkNil(c, z, funcs.Ternary(z, nil, &p))
		case 6:
			var p *int
			checkNil(c, false, &p)
		case 7:
			checkNil(c, false, 0)
		case 8:
			checkNil(c, false, "")
		case 9:
			checkNil(c, false, struct{ p *int }{})
		case 10:
			checkNil(c, z, funcs.Ternary[any](z, nil, i))
		case 11:
			checkNil(c, z, funcs.Ternary[any](z, (*int)(nil), &i))
		case 12:
			checkNil(c, z, funcs.Ternary[error](z, nil, errX))
		case 13:
			checkNil(c, z, funcs.Ternary[Iface](z, (*myErr)(nil), &myErr{}))
		case 14:
			checkNil(c, false, [0]int{})
		default:
			type list []string
			checkNil(c, z, funcs.Ternary(z, nil, list{}))
		}
	})
}

// ==== panics and closers

func TestTryTo(t *testing.T) {
	vt.Check(t, 15000, "functions and up to 5 closers any of which panic, and a handler that may panic; non-trivial if something panics and there are at least two closers", func(c *vt.C) {
		var trace, want []string
		n := c.Range(0, 5, "closers")
		var panics []any
		may := func(label string) any {
			if c.Range(0, 2, label) == 0 {
				return []any{errX, "text", 0, fmt.Errorf("%s", label), []int{1}}[c.Range(0, 4, "value")]
			}
			return nil
		}
		act := func(name string, p any) func() {
			return func() {
				trace = append(trace, name)
				if p != nil {
					panic(p)
				}
			}
		}
		pt := may("function panics")
		var last any = pt
		if pt != nil {
			panics = append(panics, pt)
		}
		closers := make([]func(), n)
		ps := make([]any, n)
		for i := range closers {
			ps[i] = may(fmt.Sprintf("closer %d panics", i))
			closers[i] = act(fmt.Sprint("c", i), ps[i])
			if c.Bool("ignored result") {
				f := closers[i]
				closers[i] = funcs.IgnoreResult(func() int { f(); return 1 })
			}
		}
		want = append(want, "try")
		for i := n - 1; i >= 0; i-- {
			want = append(want, fmt.Sprint("c", i))
			if ps[i] != nil {
				last = ps[i]
				panics = append(panics, ps[i])
			}
		}
		if last != nil {
			want = append(want, fmt.Sprintf("handle %v", last))
		}
		ph := may("handler panics")
		e, p := vt.Panics(func() {
			funcs.TryTo(act("try", pt), func(v any) {
				trace = append(trace, fmt.Sprintf("handle %v", v))
				if ph != nil {
					panic(ph)
				}
			}, closers...)
		})
		if fmt.Sprint(trace) != fmt.Sprint(want) {
			c.Fatalf("calls %v, expected %v", trace, want)
		}
		if p != (last != nil && ph != nil) || p && !reflect.DeepEqual(e, ph) {
			c.Fatalf("%v, handler %v: panics %v with %v", want, ph, p, e)
		}
		c.Class("panics %d", len(panics))
		if len(panics) > 0 && n > 1 {
			c.NonTrivial("%v %v", want, ph)
		}
	})
}

// Methods of named types do not matter; the texts still tell values apart.
func (m Named) String() string     { return fmt.Sprint("1", int16(m)) }
func (m Named) Cmp(o Named) int    { return vt.Compare(int16(o), int16(m)) }
func (m Named) Less(o Named) bool  { return o < m }
func (m Named) Equal(o Named) bool { return m != o }
func (m Named) IsZero() bool       { return m != 0 }

func (m Word) String() string    { return fmt.Sprint("1", string(m)) }
func (m Word) Cmp(o Word) int    { return vt.Compare(string(o), string(m)) }
func (m Word) Less(o Word) bool  { return o < m }
func (m Word) Equal(o Word) bool { return m != o }
func (m Word) IsZero() bool      { return m != "" }

func (m Temp) Cmp(o Temp) int    { return vt.Compare(float64(o), float64(m)) }
func (m Temp) Less(o Temp) bool  { return o < m }
func (m Temp) Error() string     { return fmt.Sprint("1", float64(m)) }
func (m Temp) Equal(o Temp) bool { return m != o }
func (m Temp) IsZero() bool      { return m != 0 }
