package c07

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"testing"

	"github.com/bantling/micro/constraint"
	mm "github.com/bantling/micro/math"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type (
	MyInt8  int8
	MyUint  uint
	MyF64   float64
	MyStr   string
	MyCmplx complex64
)

func sign[T constraint.Ordered](a, b T) int {
	if a < b {
		return -1
	}
	if b < a {
		return 1
	}
	return 0
}

func ordered[T constraint.Ordered](c *vt.C, a, b T) {
	s := sign(a, b)
	if g := mm.CmpOrdered(a, b); g != s {
		c.Fatalf("CmpOrdered(%v, %v) of %T is %d", a, b, a, g)
	}
	lo, hi := a, a
	if s < 0 {
		hi = b
	}
	if s > 0 {
		lo = b
	}
	if g := mm.MinOrdered(a, b); g != lo || fmt.Sprint(g) != fmt.Sprint(lo) { // -0 and 0 are equal
		c.Fatalf("MinOrdered(%v, %v) of %T is %v", a, b, a, g)
	}
	if g := mm.MaxOrdered(a, b); g != hi || fmt.Sprint(g) != fmt.Sprint(hi) {
		c.Fatalf("MaxOrdered(%v, %v) of %T is %v", a, b, a, g)
	}
	if s != 0 {
		c.NonTrivial("%T %v %v", a, a, b)
	}
}

func intOrdered[T interface {
	vt.Integer
	constraint.Ordered
}](c *vt.C) {
	a := vt.DrawInt[T](c.T, "a")
	b := a
	if c.Range(0, 4, "same") != 0 {
		b = vt.DrawInt[T](c.T, "b")
	}
	ordered(c, a, b)
}

func TestOrdered(t *testing.T) {
	str := rapid.OneOf(rapid.StringMatching("[ab]{0,3}"), rapid.String())
	fs := []func(c *vt.C){
		intOrdered[int], intOrdered[int8], intOrdered[int16], intOrdered[int32], intOrdered[int64], intOrdered[MyInt8],
		intOrdered[uint], intOrdered[uint8], intOrdered[uint16], intOrdered[uint32], intOrdered[uint64], intOrdered[MyUint],
		func(c *vt.C) { ordered(c, str.Draw(c.T, "a"), str.Draw(c.T, "b")) },
		func(c *vt.C) {
			// that differ only after a while
			stem := vt.DrawStem(c.T, "stem")
			ordered(c, vt.DrawSimilar(c.T, stem, "a"), vt.DrawSimilar(c.T, stem, "b"))
		},
		func(c *vt.C) { ordered(c, MyStr(str.Draw(c.T, "a")), MyStr(str.Draw(c.T, "b"))) },
		func(c *vt.C) { ordered(c, vt.DrawFloat64(c.T, "a"), vt.DrawFloat64(c.T, "b")) },
		func(c *vt.C) { ordered(c, MyF64(vt.DrawFloat64(c.T, "a")), MyF64(vt.DrawFloat64(c.T, "b"))) },
		func(c *vt.C) { ordered(c, float32(vt.DrawFloat64(c.T, "a")), float32(vt.DrawFloat64(c.T, "b"))) },
	}
	vt.Check(t, 60000, "two integers, floats or strings; non-trivial: they differ", func(c *vt.C) { fs[c.Range(0, len(fs)-1, "type")](c) })
}

// Complex numbers are ordered by magnitude
func complexes[T constraint.Complex](c *vt.C, a, b T) {
	x, y := cmplx.Abs(complex128(a)), cmplx.Abs(complex128(b))
	s := sign(x, y)
	if g := mm.CmpComplex(a, b); g != s {
		c.Fatalf("CmpComplex(%v, %v) is %d", a, b, g)
	}
	lo, hi := a, a
	if s < 0 {
		hi = b
	}
	if s > 0 {
		lo = b
	}
	if g := mm.MinComplex(a, b); g != lo || fmt.Sprint(g) != fmt.Sprint(lo) {
		c.Fatalf("MinComplex(%v, %v) is %v", a, b, g)
	}
	if g := mm.MaxComplex(a, b); g != hi || fmt.Sprint(g) != fmt.Sprint(hi) {
		c.Fatalf("MaxComplex(%v, %v) is %v", a, b, g)
	}
	if s != 0 {
		c.NonTrivial("%T %v %v", a, a, b)
	}
}

func TestComplex(t *testing.T) {
	draw := func(c *vt.C, l string) complex128 {
		if c.Bool(l + ".small") {
			return complex(float64(c.Range(-4, 4, l+".re")), float64(c.Range(-4, 4, l+".im")))
		}
		return complex(vt.DrawFloat64(c.T, l+".re"), vt.DrawFloat64(c.T, l+".im"))
	}
	vt.Check(t, 20000, "two complex numbers of any type; non-trivial: magnitudes differ", func(c *vt.C) {
		a, b := draw(c, "a"), draw(c, "b")
		switch c.Range(0, 2, "type") {
		case 0:
			complexes(c, a, b)
		case 1:
			complexes(c, complex64(a), complex64(b))
		default:
			complexes(c, MyCmplx(a), MyCmplx(b))
		}
	})
}

// diff compares with results of any size
type diff struct{ key, id int }

func (a diff) Cmp(b diff) int { return (a.key - b.key) * 3 }

func TestCmp(t *testing.T) {
	vt.Check(t, 20000, "two big.Int or two big.Rat pointers, or two structs whose comparison yields other numbers than -1, 0, 1; non-trivial: values differ", func(c *vt.C) {
		if c.Range(0, 3, "struct") == 0 {
			a, b := diff{c.Range(-5, 5, "a"), 1}, diff{c.Range(-5, 5, "b"), 2}
			lo, hi := a, a
			if b.key < a.key {
				lo = b
			}
			if b.key > a.key {
				hi = b
			}
			if l, h := mm.MinCmp(a, b), mm.MaxCmp(a, b); l != lo || h != hi {
				c.Fatalf("MinCmp and MaxCmp of %v and %v are %v and %v", a, b, l, h)
			}
			if a.key != b.key {
				c.NonTrivial("%v %v", a, b)
			}
			return
		}
		if c.Bool("rat") {
			a := big.NewRat(int64(c.Range(-9, 9, "an")), int64(c.Range(1, 9, "ad")))
			b := big.NewRat(int64(c.Range(-9, 9, "bn")), int64(c.Range(1, 9, "bd")))
			lo, hi := mm.MinCmp(a, b), mm.MaxCmp(a, b)
			if (lo != a && lo != b) || (hi != a && hi != b) || lo.Cmp(a) > 0 || lo.Cmp(b) > 0 || hi.Cmp(a) < 0 || hi.Cmp(b) < 0 {
				c.Fatalf("MinCmp and MaxCmp of %v and %v are %v and %v", a, b, lo, hi)
			}
			if a.Cmp(b) != 0 {
				c.NonTrivial("%v %v", a, b)
			} else if lo != a || hi != a {
				c.Fatalf("MinCmp and MaxCmp of equal values are not the first")
			}
			return
		}
		a, b := vt.DrawBig(c.T, 100, "a"), vt.DrawBig(c.T, 100, "b")
		lo, hi := mm.MinCmp(a, b), mm.MaxCmp(a, b)
		if (lo != a && lo != b) || (hi != a && hi != b) || lo.Cmp(a) > 0 || lo.Cmp(b) > 0 || hi.Cmp(a) < 0 || hi.Cmp(b) < 0 {
			c.Fatalf("MinCmp and MaxCmp of %v and %v are %v and %v", a, b, lo, hi)
		}
		if a.Cmp(b) != 0 {
			c.NonTrivial("%v %v", a, b)
		} else if lo != a || hi != a {
			c.Fatalf("MinCmp and MaxCmp of equal values are not the first")
		}
	})
}

func within[T constraint.IntegerAndFloat](lo T, lm mm.RangeMode, hi T, hm mm.RangeMode, v T) bool {
	return (v > lo || (v == lo && lm == mm.Closed)) && (v < hi || (v == hi && hm == mm.Closed))
}

func ranges[T constraint.IntegerAndFloat](c *vt.C, lo, hi, init T, more []T) {
	lm, hm := mm.RangeMode(c.Bool("min closed")), mm.RangeMode(c.Bool("max closed"))
	if !c.Exhaustive() && c.Range(0, 3, "initial in range") > 0 && lo < hi {
		init = lo
		if lm == mm.Open {
			init = hi
		}
	}
	var r mm.Range[T]
	val, panicked := vt.Panics(func() { r = mm.OfRange(lo, lm, hi, hm, init) })
	valid := lo < hi && within(lo, lm, hi, hm, init)
	if panicked == valid {
		c.Fatalf("OfRange(%v, %v, %v, %v, %v) of %T: panic %v (%v)", lo, lm, hi, hm, init, lo, panicked, val)
	}
	if !valid {
		c.Class("invalid range")
		return
	}
	cur := init
	accepted, rejected := 0, 0
	more = append([]T{lo, hi, init}, more...)
	for i := 0; i <= len(more); i++ {
		gmin, gminm := r.GetMin()
		gmax, gmaxm := r.GetMax()
		if gmin != lo || gminm != lm || gmax != hi || gmaxm != hm || r.GetValue() != cur {
			c.Fatalf("range (%v %v, %v %v) of %v reads (%v %v, %v %v) of %v", lo, lm, hi, hm, cur, gmin, gminm, gmax, gmaxm, r.GetValue())
		}
		if i == len(more) {
			break
		}
		v := more[i]
		// a copy is another range
		other := r
		vt.Panics(func() { other.SetValue(v) })
		if r.GetValue() != cur {
			c.Fatalf("range (%v %v, %v %v) of %v: after a copy of it is set to %v its value is %v", lo, lm, hi, hm, cur, v, r.GetValue())
		}
		other = r
		err := r.SetValue(v)
		if other.GetValue() != cur {
			c.Fatalf("range (%v %v, %v %v) of %v: after it is set to %v the value of a copy made before is %v", lo, lm, hi, hm, cur, v, other.GetValue())
		}
		if ok := within(lo, lm, hi, hm, v); ok != (err == nil) {
			c.Fatalf("range (%v %v, %v %v): SetValue(%v) gives error %v", lo, lm, hi, hm, v, err)
		} else if ok {
			cur = v
			accepted++
		} else {
			rejected++
		}
	}
	if accepted > 0 && rejected > 0 {
		c.NonTrivial("%T (%v %v, %v %v) from %v set %v", lo, lo, lm, hi, hm, init, more)
	}
}

func intRange[T interface {
	vt.Integer
	constraint.IntegerAndFloat
}](c *vt.C) {
	lo, hi := vt.DrawInt[T](c.T, "min"), vt.DrawInt[T](c.T, "max")
	if lo > hi && c.Range(0, 4, "swap") > 0 {
		lo, hi = hi, lo
	}
	var more []T
	for i := c.Range(0, 5, "n"); i > 0; i-- {
		more = append(more, vt.DrawInt[T](c.T, "v"))
	}
	for _, b := range []T{lo - 1, lo + 1, hi - 1, hi + 1} {
		more = append(more, b)
	}
	ranges(c, lo, hi, vt.DrawInt[T](c.T, "init"), more)
}

func TestRange(t *testing.T) {
	fs := []func(*vt.C){
		intRange[int], intRange[int8], intRange[int16], intRange[int32], intRange[int64], intRange[MyInt8],
		intRange[uint], intRange[uint8], intRange[uint16], intRange[uint32], intRange[uint64], intRange[MyUint],
		func(c *vt.C) {
			lo, hi := vt.DrawFloat64(c.T, "min"), vt.DrawFloat64(c.T, "max")
			if lo > hi && c.Range(0, 4, "swap") > 0 {
				lo, hi = hi, lo
			}
			more := []float64{math.Nextafter(lo, math.Inf(-1)), math.Nextafter(lo, math.Inf(1)), math.Nextafter(hi, 0), math.Inf(1), math.NaN()}
			ranges(c, lo, hi, vt.DrawFloat64(c.T, "init"), append(more, vt.DrawFloat64(c.T, "v")))
		},
		func(c *vt.C) {
			lo, hi := MyF64(vt.DrawFloat64(c.T, "min")), MyF64(vt.DrawFloat64(c.T, "max"))
			ranges(c, lo, hi, MyF64(vt.DrawFloat64(c.T, "init")), []MyF64{MyF64(vt.DrawFloat64(c.T, "v"))})
		},
	}
	vt.Check(t, 40000, "a range of any numeric type with open and closed ends, and values set one after another, at, next to and away from the ends; "+
		"non-trivial: some are accepted and some are rejected", func(c *vt.C) { fs[c.Range(0, len(fs)-1, "type")](c) })
}

// every pair of a few values
func TestAllPairs(t *testing.T) {
	floats := []float64{math.Inf(-1), -math.MaxFloat64, -2, -1.5, -math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 1, 1.5, 2, math.MaxFloat64, math.Inf(1)}
	strs := []string{"", "a", "A", "ab", "b", "aa", "\x00", "a\x00", "é", "\xff", "日", "\U0010ffff"}
	vt.All(t, 1000000, "every pair of int8 and of uint8, of 13 floats from one infinity to the other, of the complex numbers of such parts, of 12 strings; non-trivial: they differ", func(c *vt.C) {
		switch kind := c.Range(0, 5, "kind"); kind {
		case 0:
			ordered(c, int8(c.Range(-128, 127, "a")), int8(c.Range(-128, 127, "b")))
		case 1:
			ordered(c, uint8(c.Range(0, 255, "a")), uint8(c.Range(0, 255, "b")))
		case 2:
			a, b := floats[c.Range(0, 12, "a")], floats[c.Range(0, 12, "b")]
			ordered(c, a, b)
			ordered(c, float32(a), float32(b))
		case 3:
			ordered(c, strs[c.Range(0, 11, "a")], strs[c.Range(0, 11, "b")])
		default:
			a := complex(floats[c.Range(0, 12, "a.re")], floats[c.Range(0, 12, "a.im")])
			b := complex(floats[c.Range(0, 12, "b.re")], floats[c.Range(0, 12, "b.im")])
			if kind == 4 {
				complexes(c, a, b)
			} else {
				complexes(c, complex64(a), complex64(b))
			}
		}
	})
}

// every small range
func TestAllRanges(t *testing.T) {
	vt.All(t, 1000000, "every range with bounds, initial value and two later values of -2 to 3 of int8, of 0 to 5 quarters of float64, and of the last 6 of uint8; non-trivial as in TestRange", func(c *vt.C) {
		lo, hi, init, v, w := c.Range(-2, 3, "min"), c.Range(-2, 3, "max"), c.Range(-2, 3, "initial"), c.Range(-2, 3, "first"), c.Range(-2, 3, "second")
		small := func(x int) int8 { return int8(x) }
		last := func(x int) uint8 { return uint8(252 + x) }
		quarter := func(x int) float64 { return float64(x+2) / 4 }
		switch c.Range(0, 2, "type") {
		case 0:
			ranges(c, small(lo), small(hi), small(init), []int8{small(v), small(w)})
		case 1:
			ranges(c, last(lo), last(hi), last(init), []uint8{last(v), last(w)})
		default:
			ranges(c, quarter(lo), quarter(hi), quarter(init), []float64{quarter(v), quarter(w)})
		}
	})
}

// Methods of named types do not matter; the texts still tell values apart.
func (m MyInt8) String() string     { return fmt.Sprint("1", int8(m)) }
func (m MyInt8) Cmp(o MyInt8) int   { return vt.Compare(int8(o), int8(m)) }
func (m MyInt8) Less(o MyInt8) bool { return o < m }

func (m MyUint) Cmp(o MyUint) int    { return vt.Compare(uint(o), uint(m)) }
func (m MyUint) Equal(o MyUint) bool { return m != o }

func (m MyF64) String() string  { return fmt.Sprint("1", float64(m)) }
func (m MyF64) Cmp(o MyF64) int { return vt.Compare(float64(o), float64(m)) }

func (m MyStr) Cmp(o MyStr) int   { return vt.Compare(string(o), string(m)) }
func (m MyStr) Less(o MyStr) bool { return o < m }
func (m MyStr) IsZero() bool      { return m != "" }

func (m MyCmplx) String() string       { return fmt.Sprint("1", complex64(m)) }
func (m MyCmplx) IsZero() bool         { return m != 0 }
func (m MyCmplx) Equal(o MyCmplx) bool { return m != o }
