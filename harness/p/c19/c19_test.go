package c19

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"testing"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verif/harness/streamx"
	"verif/harness/vt"
)

type i8 int8
type i32 int32
type i64 int64
type u8 uint8
type u64 uint64
type f32 float32
type f64 float64

var (
	fault  = errors.New("fault")
	faults = append([]error{fault}, vt.Lookalikes(iter.EOI)...)
)

// source yields the values, then the end. Sources of an odd number of values are of a type of their own.
func source[T any](vals []T, end error) iter.Iter[T] {
	i := 0
	return streamx.RichIf(len(vals)&1 == 1, iter.OfIter(func() (T, error) {
		var zv T
		if i++; i <= len(vals) {
			return vals[i-1], nil
		}
		return zv, end
	}))
}

// single checks that it yields one value and then ends, or only an error
func single[T any](c *vt.C, what string, it iter.Iter[T]) (T, error) {
	v, err := it.Next()
	for range 2 {
		if w, e := it.Next(); !reflect.ValueOf(&w).Elem().IsZero() || e == nil || err == nil && e != iter.EOI {
			c.Fatalf("%s: %v, %v, and then %v, %v", what, v, err, w, e)
		}
	}
	if err != nil && !reflect.ValueOf(&v).Elem().IsZero() {
		c.Fatalf("%s: value %v along with error %v", what, v, err)
	}
	return v, err
}

// size is a number of elements: few, or more than small types can count
func size(c *vt.C) int {
	if c.Range(0, 9, "many") == 0 {
		return c.Range(100, 700, "size")
	}
	return c.Range(0, 9, "size")
}

// end is an error at the end of the source
func end(c *vt.C) error {
	most := 5
	if c.Exhaustive() {
		most = 1
	}
	if c.Range(0, most, "fails") == 0 {
		if c.Exhaustive() {
			return fault
		}
		return faults[c.Range(0, len(faults)-1, "fault")]
	}
	return iter.EOI
}

// ints draws elements, small ones if there are many
func ints[T vt.Integer](c *vt.C) []T {
	lo, hi := vt.BoundsOf[T]()
	if c.Exhaustive() {
		var v []T
		for range 4 {
			k := c.Range(0, 9, "element")
			if k == 0 {
				break
			}
			x := big.NewInt(int64(k) - 5) // -1 to 1
			switch {
			case k < 4:
				x.Add(lo, big.NewInt(int64(k)-1))
			case k > 6:
				x.Sub(hi, big.NewInt(int64(k)-7))
			}
			if x.Cmp(lo) < 0 {
				x.Quo(hi, big.NewInt(2))
			}
			v = append(v, vt.FromBig[T](x))
		}
		return v
	}
	v := make([]T, size(c))
	near := c.Range(0, 2, "values")
	for i := range v {
		switch {
		case len(v) >= 100 || near == 0:
			k := int64(c.Range(0, 3, "small"))
			if lo.Sign() < 0 {
				k -= 2
			}
			v[i] = vt.FromBig[T](big.NewInt(k))
		case near == 1:
			v[i] = vt.FromBig[T](big.NewInt(int64(c.Range(0, 60, "medium"))))
			if lo.Sign() < 0 && c.Bool("neg") {
				v[i] = -v[i]
			}
		default:
			v[i] = vt.DrawInt[T](c.T, "value")
		}
	}
	return v
}

func short[T any](v []T) string {
	if len(v) > 12 {
		return fmt.Sprintf("%v... (%d)", v[:12], len(v))
	}
	return fmt.Sprint(v)
}

// average checks AvgInt or AvgUint
func average[T vt.Integer](c *vt.C, fn func(iter.Iter[T]) iter.Iter[T]) {
	v, e := ints[T](c), end(c)
	what := fmt.Sprintf("average of %T %s then %v", *new(T), short(v), e)
	got, err := single(c, what, fn(source(v, e)))
	sum, overflow := new(big.Int), false
	for _, x := range v {
		if sum.Add(sum, vt.Big(x)); !vt.InRange[T](sum) {
			overflow = true
			break
		}
	}
	switch {
	case overflow:
		if err == nil || err == iter.EOI {
			c.Fatalf("%s: %v, %v, but the sum overflows", what, got, err)
		}
		c.Class("overflow")
		return
	case e != iter.EOI || len(v) == 0:
		if err != e {
			c.Fatalf("%s: error %v", what, err)
		}
		return
	}
	want := vt.RoundTo(new(big.Rat).SetFrac(sum, big.NewInt(int64(len(v)))), 0)
	if err != nil || vt.Big(got).Cmp(want) != 0 {
		c.Fatalf("%s: %v, %v; expected %v", what, got, err, want)
	}
	if len(v) > 1 {
		c.NonTrivial("%s", what)
	}
}

func TestAverage(t *testing.T) {
	vt.Check(t, 40000, "up to 700 integers of every type, near its bounds, medium, or small; non-trivial if the average of at least 2 exists", func(c *vt.C) {
		[]func(*vt.C){
			func(c *vt.C) { average(c, stream.AvgInt[int]) }, func(c *vt.C) { average(c, stream.AvgInt[int8]) },
			func(c *vt.C) { average(c, stream.AvgInt[int16]) }, func(c *vt.C) { average(c, stream.AvgInt[int32]) },
			func(c *vt.C) { average(c, stream.AvgInt[int64]) }, func(c *vt.C) { average(c, stream.AvgInt[i8]) },
			func(c *vt.C) { average(c, stream.AvgInt[i64]) },
			func(c *vt.C) { average(c, stream.AvgUint[uint]) }, func(c *vt.C) { average(c, stream.AvgUint[uint8]) },
			func(c *vt.C) { average(c, stream.AvgUint[uint16]) }, func(c *vt.C) { average(c, stream.AvgUint[uint32]) },
			func(c *vt.C) { average(c, stream.AvgUint[uint64]) }, func(c *vt.C) { average(c, stream.AvgUint[u8]) },
			func(c *vt.C) { average(c, stream.AvgUint[u64]) },
		}[c.Range(0, 13, "type")](c)
	})
}

// fold checks a function that yields nothing for no elements, and else folds them
func fold[T comparable](c *vt.C, name string, v []T, fn func(iter.Iter[T]) iter.Iter[T], f func(a, b T) T) {
	e := end(c)
	what := fmt.Sprintf("%s of %T %s then %v", name, *new(T), short(v), e)
	got, err := single(c, what, fn(source(v, e)))
	if e != iter.EOI || len(v) == 0 {
		if err != e {
			c.Fatalf("%s: %v, %v", what, got, err)
		}
		return
	}
	want := v[0]
	for _, x := range v[1:] {
		want = f(want, x)
	}
	// infinities of both signs, which sums that overflow reach, add up to NaN
	nan := got != got && want != want
	if err != nil || got != want && !nan {
		c.Fatalf("%s: %v, %v; expected %v", what, got, err, want)
	}
	if len(v) > 1 {
		c.NonTrivial("%s", what)
	}
}

func ordered[T constraint.Ordered](c *vt.C, v []T) {
	fold(c, "Max", v, stream.Max[T], func(a, b T) T {
		if b > a {
			return b
		}
		return a
	})
	fold(c, "Min", v, stream.Min[T], func(a, b T) T {
		if b < a {
			return b
		}
		return a
	})
}

func numbers[T constraint.IntegerAndFloat](c *vt.C, v []T) {
	ordered(c, v)
	fold(c, "Sum", v, stream.Sum[T], func(a, b T) T { return a + b })
}

func floats[T vt.Float](c *vt.C) []T {
	v := make([]T, size(c))
	for i := range v {
		f := T(vt.DrawFloat64(c.T, "value"))
		if c.Range(0, 20, "inf") == 0 {
			f = T(math.Inf(1))
		} else if math.IsInf(float64(f), 0) {
			f = 1
		}
		v[i] = f
	}
	return v
}

func TestFolds(t *testing.T) {
	vt.Check(t, 20000, "sums, maxima and minima of up to 700 numbers of every type (integer sums wrap around), or strings; non-trivial if of at least 2", func(c *vt.C) {
		[]func(*vt.C){
			func(c *vt.C) { numbers(c, ints[int](c)) }, func(c *vt.C) { numbers(c, ints[int8](c)) },
			func(c *vt.C) { numbers(c, ints[i32](c)) }, func(c *vt.C) { numbers(c, ints[int64](c)) },
			func(c *vt.C) { numbers(c, ints[uint](c)) }, func(c *vt.C) { numbers(c, ints[uint8](c)) },
			func(c *vt.C) { numbers(c, ints[uint16](c)) }, func(c *vt.C) { numbers(c, ints[u64](c)) },
			func(c *vt.C) { numbers(c, floats[float32](c)) }, func(c *vt.C) { numbers(c, floats[float64](c)) },
			func(c *vt.C) { numbers(c, floats[f32](c)) }, func(c *vt.C) { numbers(c, floats[f64](c)) },
			func(c *vt.C) {
				v := make([]string, size(c))
				for i := range v {
					v[i] = c.Word("word", "", "a", "b", "ab", "B", "é", "aa", "\xff", "日")
				}
				ordered(c, v)
			},
		}[c.Range(0, 12, "type")](c)
	})
}

func absolute[T vt.Signed](c *vt.C) {
	v, e := ints[T](c), end(c)
	what := fmt.Sprintf("Abs of %T %s then %v", *new(T), short(v), e)
	it := stream.Abs(source(v, e))
	lo, _ := vt.BoundsOf[T]()
	neg := false
	for i, x := range v {
		got, err := it.Next()
		if vt.Big(x).Cmp(lo) == 0 {
			if err == nil || err == iter.EOI || got != 0 {
				c.Fatalf("%s: %v, %v at %d, which has no absolute value", what, got, err, i)
			}
			if got, again := it.Next(); got != 0 || again != err {
				c.Fatalf("%s: %v, %v after error %v", what, got, again, err)
			}
			return
		}
		if err != nil || vt.Big(got).Cmp(new(big.Int).Abs(vt.Big(x))) != 0 {
			c.Fatalf("%s: %v, %v at %d", what, got, err, i)
		}
		neg = neg || x < 0
	}
	if _, err := it.Next(); err != e {
		c.Fatalf("%s ends with %v", what, err)
	}
	if neg {
		c.NonTrivial("%s", what)
	}
}

func TestAbs(t *testing.T) {
	vt.Check(t, 20000, "up to 700 signed integers of every type; non-trivial if some are negative and none the smallest", func(c *vt.C) {
		[]func(*vt.C){absolute[int], absolute[int8], absolute[int16], absolute[int32], absolute[int64], absolute[i8], absolute[i32], absolute[i64]}[c.Range(0, 7, "type")](c)
	})
}

// every short list
func TestAllShort(t *testing.T) {
	vt.All(t, 3000000, "lists of up to 4 of the 3 smallest and largest numbers and -1, 0, 1 of types of 8 and 64 bits, with an error at the end or not, through each function; non-trivial as in the other tests", func(c *vt.C) {
		[]func(*vt.C){
			func(c *vt.C) { average(c, stream.AvgInt[int8]) }, func(c *vt.C) { average(c, stream.AvgUint[uint8]) },
			func(c *vt.C) { average(c, stream.AvgInt[int64]) }, func(c *vt.C) { average(c, stream.AvgUint[uint64]) },
			func(c *vt.C) { numbers(c, ints[int8](c)) }, func(c *vt.C) { numbers(c, ints[uint64](c)) },
			absolute[int8], absolute[int64],
		}[c.Range(0, 7, "function")](c)
	})
}

func TestCount(t *testing.T) {
	vt.Check(t, 5000, "up to 700 elements; non-trivial if at least 2", func(c *vt.C) {
		n, e := size(c), end(c)
		what := fmt.Sprintf("Count of %d then %v", n, e)
		got, err := single(c, what, stream.Count(source(make([]any, n), e)))
		if e != iter.EOI && err != e || e == iter.EOI && (err != nil || got != n) {
			c.Fatalf("%s: %v, %v", what, got, err)
		}
		if n > 1 {
			c.NonTrivial("%s", what)
		}
	})
}

func draw[T any](c *vt.C, fn func() T) []T {
	v := make([]T, c.Range(0, 8, "len"))
	for i := range v {
		v[i] = fn()
	}
	return v
}

// bigs checks the functions for one of the big types, and that the elements are left as they are
func bigs[T interface {
	comparable
	constraint.BigOps[T]
}](c *vt.C, v []T, rat func(T) *big.Rat, cp func(T) T, sum, avg func(T, error)) {
	e := end(c)
	before := make([]T, len(v))
	for i, x := range v {
		before[i] = cp(x)
	}
	what := fmt.Sprintf("%T %s then %v", *new(T), short(v), e)
	check := func(name string) {
		for i, x := range v {
			if rat(x).Cmp(rat(before[i])) != 0 {
				c.Fatalf("%s of %s changes element %d to %v", name, what, i, x)
			}
		}
	}
	want := func(name string, got T, err error, f func(*big.Rat) bool) {
		if check(name); e != iter.EOI || len(v) == 0 {
			if err != e {
				c.Fatalf("%s of %s: %v, %v", name, what, got, err)
			}
			return
		}
		if err != nil || !f(rat(got)) {
			c.Fatalf("%s of %s: %v, %v", name, what, got, err)
		}
	}
	run := func(name string, fn func(iter.Iter[T]) iter.Iter[T], f func(*big.Rat) bool) {
		got, err := single(c, name+" of "+what, fn(source(v, e)))
		want(name, got, err, f)
	}
	limit := func(sign int) func(*big.Rat) bool {
		return func(r *big.Rat) bool {
			in := false
			for _, x := range before {
				if rat(x).Cmp(r)*sign > 0 {
					return false
				}
				in = in || rat(x).Cmp(r) == 0
			}
			return in
		}
	}
	run("MaxCmp", stream.MaxCmp[T], limit(1))
	run("MinCmp", stream.MinCmp[T], limit(-1))
	s, err := single(c, "SumBigOps of "+what, stream.SumBigOps(source(v, e)))
	want("SumBigOps", s, err, func(*big.Rat) bool { sum(s, err); return true })
	a, err := single(c, "AvgBigOps of "+what, stream.AvgBigOps(source(v, e)))
	want("AvgBigOps", a, err, func(*big.Rat) bool { avg(a, err); return true })
	it := stream.AbsBigOps(source(v, e))
	for i := range v {
		r, err := it.Next()
		if err != nil || rat(r).Cmp(new(big.Rat).Abs(rat(before[i]))) != 0 {
			c.Fatalf("AbsBigOps of %s: %v, %v at %d", what, r, err, i)
		}
	}
	if _, err := it.Next(); err != e {
		c.Fatalf("AbsBigOps of %s ends with %v", what, err)
	}
	check("AbsBigOps")
	if len(v) > 1 && e == iter.EOI {
		c.NonTrivial("%s", what)
	}
}

func total[T any](v []T, rat func(T) *big.Rat) (sum, size *big.Rat) {
	sum, size = new(big.Rat), new(big.Rat)
	for _, x := range v {
		sum.Add(sum, rat(x))
		size.Add(size, new(big.Rat).Abs(rat(x)))
	}
	return
}

func TestBigInt(t *testing.T) {
	lim := new(big.Int).Lsh(big.NewInt(1), 200)
	vt.Check(t, 10000, "sum, average, absolute values, maximum and minimum of up to 8 *big.Int of up to 200 bits, or sometimes 4000; non-trivial if at least 2", func(c *vt.C) {
		lim := lim
		if c.Range(0, 15, "wide") == 15 {
			lim = new(big.Int).Lsh(lim, 3800)
		}
		v := draw(c, func() *big.Int { return vt.DrawBigIn(c.T, new(big.Int).Neg(lim), lim, "value") })
		rat := func(x *big.Int) *big.Rat { return new(big.Rat).SetInt(x) }
		exact, _ := total(v, rat)
		bigs(c, v, rat, func(x *big.Int) *big.Int { return new(big.Int).Set(x) },
			func(s *big.Int, err error) {
				if rat(s).Cmp(exact) != 0 {
					c.Fatalf("sum of %v is %v", v, s)
				}
			},
			func(a *big.Int, err error) {
				if a.Cmp(vt.RoundTo(new(big.Rat).Quo(exact, big.NewRat(int64(len(v)), 1)), 0)) != 0 {
					c.Fatalf("average of %v is %v", v, a)
				}
			})
	})
}

func TestBigRat(t *testing.T) {
	lim := new(big.Int).Lsh(big.NewInt(1), 80)
	vt.Check(t, 10000, "sum, average, absolute values, maximum and minimum of up to 8 *big.Rat; non-trivial if at least 2", func(c *vt.C) {
		v := draw(c, func() *big.Rat {
			return new(big.Rat).SetFrac(vt.DrawBigIn(c.T, new(big.Int).Neg(lim), lim, "num"), vt.DrawBigIn(c.T, big.NewInt(1), lim, "den"))
		})
		rat := func(x *big.Rat) *big.Rat { return x }
		exact, _ := total(v, rat)
		bigs(c, v, rat, func(x *big.Rat) *big.Rat { return new(big.Rat).Set(x) },
			func(s *big.Rat, err error) {
				if s.Cmp(exact) != 0 {
					c.Fatalf("sum of %v is %v", v, s)
				}
			},
			func(a *big.Rat, err error) {
				if a.Cmp(new(big.Rat).Quo(exact, big.NewRat(int64(len(v)), 1))) != 0 {
					c.Fatalf("average of %v is %v", v, a)
				}
			})
	})
}

func TestBigFloat(t *testing.T) {
	vt.Check(t, 10000, "sum, average, absolute values, maximum and minimum of up to 8 *big.Float of the same precision of 10 to 500 bits, each result within the rounding errors of that precision; non-trivial if at least 2", func(c *vt.C) {
		p := []uint{10, 24, 53, 64, 100, 200, 256, 500}[c.Range(0, 7, "precision")]
		v := draw(c, func() *big.Float {
			m := vt.DrawBigIn(c.T, new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), p), big.NewInt(1)), "mantissa")
			f := new(big.Float).SetPrec(p).SetInt(m)
			if c.Bool("neg") {
				f.Neg(f)
			}
			return f.SetMantExp(f, c.Range(-int(p), 8, "exponent"))
		})
		rat := func(x *big.Float) *big.Rat { r, _ := x.Rat(nil); return r }
		exact, size := total(v, rat)
		// each of the operations rounds by less than half a unit in the last place of a value of at most this size
		bound := new(big.Rat).Mul(size, big.NewRat(int64(len(v)), 1))
		bound.Quo(bound, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), p-1)))
		near := func(a, b, bound *big.Rat) bool {
			d := new(big.Rat).Sub(a, b)
			return d.Abs(d).Cmp(bound) <= 0
		}
		bigs(c, v, rat, func(x *big.Float) *big.Float { return new(big.Float).Copy(x) },
			func(s *big.Float, err error) {
				if !near(rat(s), exact, bound) {
					c.Fatalf("sum of %v (%d bits) is %v", v, p, s)
				}
			},
			func(a *big.Float, err error) {
				n := big.NewRat(int64(len(v)), 1)
				if !near(rat(a), new(big.Rat).Quo(exact, n), new(big.Rat).Mul(bound, big.NewRat(3, 2))) {
					c.Fatalf("average of %v (%d bits) is %v", v, p, a)
				}
			})
	})
}

// many draws any number of values without drawing each
func many[T vt.Integer](c *vt.C) []T {
	v := make([]T, c.SizeOr(3000, 140000, "many"))
	mul, mod, shift := c.Range(1, 9, "mul"), c.Size(1000, "mod")+1, c.Range(0, 3, "shift")
	lo, _ := vt.BoundsOf[T]()
	for i := range v {
		k := i * mul % mod >> shift
		if i >= 120 {
			k &= 7
		}
		if v[i] = T(k); lo.Sign() < 0 && i&1 == 1 {
			v[i] = -v[i]
		}
	}
	return v
}

// TestMany: more elements than a small counter counts
func TestMany(t *testing.T) {
	vt.Check(t, 1500, "averages, sums, counts, maxima and minima of up to 3000 elements, now and then up to 140000; non-trivial if more than 256", func(c *vt.C) {
		e := end(c)
		n := 0
		avg := func(what string, got, err any, sum *big.Int) {
			if n == 0 || e != iter.EOI {
				if err != e {
					c.Fatalf("%s of %d: %v, %v", what, n, got, err)
				}
				return
			}
			if want := vt.RoundTo(new(big.Rat).SetFrac(sum, big.NewInt(int64(n))), 0); err != nil || fmt.Sprint(got) != want.String() {
				c.Fatalf("%s of %d: %v, %v; expected %v", what, n, got, err, want)
			}
		}
		switch c.Range(0, 6, "function") {
		case 0:
			v := many[int32](c)
			n = len(v)
			sum := int64(0)
			for _, x := range v {
				sum += int64(x)
			}
			got, err := single(c, "AvgInt", stream.AvgInt(source(v, e)))
			avg("AvgInt", got, err, big.NewInt(sum))
		case 1:
			v := many[uint32](c)
			n = len(v)
			sum := int64(0)
			for _, x := range v {
				sum += int64(x)
			}
			got, err := single(c, "AvgUint", stream.AvgUint(source(v, e)))
			avg("AvgUint", got, err, big.NewInt(sum))
		case 2:
			v := many[int](c)
			n = len(v)
			sum := new(big.Int)
			bs := make([]*big.Int, n)
			for i, x := range v {
				bs[i] = new(big.Int).Lsh(big.NewInt(int64(x)), uint(x&63))
				sum.Add(sum, bs[i])
			}
			if c.Bool("sum") {
				got, err := single(c, "SumBigOps", stream.SumBigOps(source(bs, e)))
				if n = min(n, 1); n == 1 && e == iter.EOI && (err != nil || got.Cmp(sum) != 0) || (n == 0 || e != iter.EOI) && err != e {
					c.Fatalf("SumBigOps of %d: %v, %v; expected %v", len(v), got, err, sum)
				}
			} else {
				got, err := single(c, "AvgBigOps", stream.AvgBigOps(source(bs, e)))
				avg("AvgBigOps", got, err, sum)
			}
			n = len(v)
		case 3:
			v := many[int](c)
			n = len(v)
			got, err := single(c, "Count", stream.Count(source(v, e)))
			if e != iter.EOI && err != e || e == iter.EOI && (err != nil || got != n) {
				c.Fatalf("Count of %d: %v, %v", n, got, err)
			}
		case 4:
			v := many[int16](c)
			n = len(v)
			numbers(c, v)
		case 5:
			v := many[uint64](c)
			n = len(v)
			numbers(c, v)
		case 6:
			v := many[int](c)
			n = len(v)
			it := stream.Abs(source(v, e))
			for i, x := range v {
				if got, err := it.Next(); err != nil || got != max(x, -x) {
					c.Fatalf("Abs of %d at %d of %d: %v, %v", x, i, n, got, err)
				}
			}
			if got, err := it.Next(); err != e {
				c.Fatalf("Abs of %d ends with %v, %v", n, got, err)
			}
		}
		if n > 256 {
			c.NonTrivial("%d", n)
		}
	})
}

// diff is a number whose Cmp returns the difference, also one of another type than the big ones
type diff struct{ n int }

func (d diff) Cmp(e diff) int { return 3 * (d.n - e.n) }

func TestCmp(t *testing.T) {
	vt.Check(t, 4000, "maxima and minima of up to 700 values whose Cmp returns any number; non-trivial if of at least 2", func(c *vt.C) {
		v := make([]diff, size(c))
		for i := range v {
			v[i].n = c.Range(-4, 4, "value")
		}
		fold(c, "MaxCmp", v, stream.MaxCmp[diff], func(a, b diff) diff {
			if b.n > a.n {
				return b
			}
			return a
		})
		fold(c, "MinCmp", v, stream.MinCmp[diff], func(a, b diff) diff {
			if b.n < a.n {
				return b
			}
			return a
		})
	})
}

// Methods of named types do not matter; the texts still tell values apart.
func (m i8) String() string { return fmt.Sprint("1", int8(m)) }
func (m i8) Cmp(o i8) int   { return vt.Compare(int8(o), int8(m)) }

func (m i32) Less(o i32) bool { return o < m }

func (m i64) Error() string { return fmt.Sprint("1", int64(m)) }

func (m u8) Cmp(o u8) int { return vt.Compare(uint8(o), uint8(m)) }

func (m u64) String() string { return fmt.Sprint("1", uint64(m)) }

func (m f32) Cmp(o f32) int   { return vt.Compare(float32(o), float32(m)) }
func (m f32) Less(o f32) bool { return o < m }

func (m f64) String() string { return fmt.Sprint("1", float64(m)) }
