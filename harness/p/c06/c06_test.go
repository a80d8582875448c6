package c06

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/bantling/micro/constraint"
	mm "github.com/bantling/micro/math"
	"verif/harness/vt"
)

type (
	MyInt    int
	MyInt8   int8
	MyInt64  int64
	MyUint   uint
	MyUint16 uint16
	MyF32    float32
	MyF64    float64
)

// roundDiv is a / b rounded to the nearest integer, halves away from zero; b is not zero.
func roundDiv(a, b *big.Int) *big.Int {
	// floor((2|a| + |b|) / 2|b|) with the sign of a/b
	n, d := new(big.Int).Abs(a), new(big.Int).Abs(b)
	n.Lsh(n, 1).Add(n, d)
	d.Lsh(d, 1)
	n.Div(n, d)
	if a.Sign()*b.Sign() < 0 {
		n.Neg(n)
	}
	return n
}

func divInt[T vt.Integer](a, b, garbage T) string {
	q := garbage
	err := mm.Div[T](a, b, &q)
	if b == 0 {
		if !errors.Is(err, mm.DivByZeroErr) {
			return fmt.Sprintf("%T %v / 0: got %v with error %v", a, a, q, err)
		}
		return ""
	}
	want := roundDiv(vt.Big(a), vt.Big(b))
	if !vt.InRange[T](want) {
		if err == nil {
			return fmt.Sprintf("%T %v / %v: %v does not fit, got %v without an error", a, a, b, want, q)
		}
		return ""
	}
	if err != nil || vt.Big(q).Cmp(want) != 0 {
		return fmt.Sprintf("%T %v / %v: want %v, got %v with error %v", a, a, b, want, q, err)
	}
	// the quotient may be the variable that holds an operand
	q = b
	if err := mm.Div[T](a, q, &q); err != nil || vt.Big(q).Cmp(want) != 0 {
		return fmt.Sprintf("%T %v / %v into the divisor: want %v, got %v with error %v", a, a, b, want, q, err)
	}
	return ""
}

func ints[T vt.Integer](c *vt.C) {
	b := vt.DrawInt[T](c.T, "divisor")
	var a T
	if c.Bool("near a half") && b != 0 {
		// dividend = k * b + b/2 + off, where it fits
		lo, hi := vt.BoundsOf[T]()
		k := vt.DrawBigIn(c.T, new(big.Int).Quo(lo, new(big.Int).Abs(vt.Big(b))), new(big.Int).Quo(hi, new(big.Int).Abs(vt.Big(b))), "k")
		x := new(big.Int).Mul(k, vt.Big(b))
		half := new(big.Int).Quo(vt.Big(b), big.NewInt(2))
		if c.Bool("neg half") {
			half.Neg(half)
		}
		x.Add(x, half).Add(x, big.NewInt(int64(c.Range(-1, 1, "off"))))
		if !vt.InRange[T](x) {
			x.Mul(k, vt.Big(b))
			if !vt.InRange[T](x) {
				x.SetInt64(0)
			}
		}
		a = vt.FromBig[T](x)
		c.Class("near a half")
	} else {
		a = vt.DrawInt[T](c.T, "dividend")
	}
	if s := divInt(a, b, vt.DrawInt[T](c.T, "garbage")); s != "" {
		c.Fatalf("%s", s)
	}
	if b == 0 {
		c.Class("zero divisor")
	} else if vt.Big(a).CmpAbs(vt.Big(b)) < 0 {
		c.Class("quotient below one")
	}
	if b != 0 && a != 0 && b != 1 {
		c.NonTrivial("%T %v / %v", a, a, b)
	}
}

func TestInts(t *testing.T) {
	fs := []func(*vt.C){
		ints[int], ints[int8], ints[int16], ints[int32], ints[int64], ints[MyInt], ints[MyInt8], ints[MyInt64],
		ints[uint], ints[uint8], ints[uint16], ints[uint32], ints[uint64], ints[MyUint], ints[MyUint16],
	}
	vt.Check(t, 100000, "dividend and divisor of every integer type or one derived from it, half of the dividends next to an odd multiple of half "+
		"the divisor; non-trivial: dividend not 0, divisor not 0 or 1", func(c *vt.C) { fs[c.Range(0, len(fs)-1, "type")](c) })
}

func TestTableBytes(t *testing.T) {
	vt.Table(t, "every pair of int8 and every pair of uint8 values", func(each func(string, func(func(string, ...any)))) {
		for i := -128; i <= 127; i++ {
			each(fmt.Sprintf("int8 %d by all", i), func(fail func(string, ...any)) {
				for j := -128; j <= 127; j++ {
					if s := divInt(int8(i), int8(j), 77); s != "" {
						fail("%s", s)
					}
				}
			})
			each(fmt.Sprintf("uint8 %d by all", i+128), func(fail func(string, ...any)) {
				for j := 0; j <= 255; j++ {
					if s := divInt(uint8(i+128), uint8(j), 77); s != "" {
						fail("%s", s)
					}
				}
			})
		}
	})
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (math.IsNaN(a) && math.IsNaN(b))
}

func TestFloats(t *testing.T) {
	draw := func(c *vt.C, l string) float64 {
		if c.Range(0, 7, l+".special") == 0 {
			return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN()}[c.Range(0, 4, l+".which")]
		}
		return vt.DrawFloat64(c.T, l)
	}
	vt.Check(t, 30000, "float32 and float64 operands, zeros, infinities and NaN included; non-trivial: quotient finite and not 0", func(c *vt.C) {
		a, b := draw(c, "a"), draw(c, "b")
		q, mq := 77.0, MyF64(77)
		q32, mq32 := float32(77), MyF32(77)
		errs := []error{mm.Div(a, b, &q), mm.Div(MyF64(a), MyF64(b), &mq), mm.Div(float32(a), float32(b), &q32), mm.Div(MyF32(a), MyF32(b), &mq32)}
		want, want32 := a/b, float64(float32(a)/float32(b))
		if !sameFloat(q, want) || !sameFloat(float64(mq), want) || !sameFloat(float64(q32), want32) || !sameFloat(float64(mq32), want32) {
			c.Fatalf("%v / %v: want %v and %v, got %v %v %v %v", a, b, want, want32, q, mq, q32, mq32)
		}
		for _, err := range errs {
			if err != nil {
				c.Fatalf("%v / %v: error %v", a, b, err)
			}
		}
		if want != 0 && !math.IsInf(want, 0) && !math.IsNaN(want) {
			c.NonTrivial("%v / %v", a, b)
		}
	})
}

type divFn[T any] func(a, b T, q *T) error

func both[T interface {
	constraint.BigOps[T]
	constraint.Numeric
}]() []divFn[T] {
	return []divFn[T]{mm.Div[T], mm.DivBigOps[T]}
}

func TestBigInt(t *testing.T) {
	vt.Check(t, 40000, "big.Int operands of up to 200 bits, or sometimes 3000, half of the dividends next to an odd multiple of half the divisor; the quotient is nil, "+
		"other, or an operand; non-trivial: divisor above 1 in magnitude", func(c *vt.C) {
		b := vt.DrawBig(c.T, 150, "divisor")
		a := vt.DrawBig(c.T, 200, "dividend")
		if c.Bool("near a half") {
			half := new(big.Int).Quo(b, big.NewInt(2))
			a = new(big.Int).Mul(vt.DrawBig(c.T, 60, "k"), b)
			if c.Bool("neg half") {
				half.Neg(half)
			}
			a.Add(a, half).Add(a, big.NewInt(int64(c.Range(-1, 1, "off"))))
		}
		if c.Range(0, 9, "same") == 0 {
			b = a
		}
		bigInt(c, a, b)
	})
}

func bigInt(c *vt.C, a, b *big.Int) {
	div := both[*big.Int]()[c.Range(0, 1, "fn")]
	a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
	mode := c.Range(0, 3, "quotient")
	q := []*big.Int{nil, big.NewInt(77), a, b}[mode]
	err := div(a, b, &q)
	if b0.Sign() == 0 {
		if !errors.Is(err, mm.DivByZeroErr) || a.Cmp(a0) != 0 {
			c.Fatalf("%v / 0: error %v, dividend now %v", a0, err, a)
		}
		c.Class("zero divisor")
		return
	}
	want := roundDiv(a0, b0)
	if err != nil || q.Cmp(want) != 0 {
		c.Fatalf("%v / %v (quotient mode %d): want %v, got %v with error %v", a0, b0, mode, want, q, err)
	}
	if (q != a && a.Cmp(a0) != 0) || (q != b && b.Cmp(b0) != 0) {
		c.Fatalf("%v / %v changed its operands to %v and %v", a0, b0, a, b)
	}
	if b0.CmpAbs(big.NewInt(1)) > 0 {
		c.NonTrivial("%v / %v", a0, b0)
	}
}

func edges[T vt.Integer](c *vt.C) {
	v := vt.Edges[T]()
	a := v[c.Range(0, len(v)-1, "dividend")]
	for _, b := range v {
		if s := divInt(a, b, 77); s != "" {
			c.Fatalf("%s", s)
		}
	}
	c.NonTrivial("%T %v", a, a)
}

// Every pair of values at the edges of each type, every small quotient of *big.Int
func TestAllEdges(t *testing.T) {
	vt.All(t, 1000000, "each value next to a power of two, or to the root, half or third of a bound of its type, divided by all such values; *big.Int of -50 to 50 by -20 to 20, into all quotients; of integers all are non-trivial", func(c *vt.C) {
		fs := []func(*vt.C){edges[int], edges[int16], edges[int32], edges[int64], edges[MyInt64], edges[uint], edges[uint16], edges[uint32], edges[uint64], edges[MyUint]}
		if k := c.Range(0, len(fs), "type"); k < len(fs) {
			fs[k](c)
		} else {
			a, b := big.NewInt(int64(c.Range(-50, 50, "a"))), big.NewInt(int64(c.Range(-20, 20, "b")))
			if c.Bool("large") {
				a.Lsh(a, 100)
				a.Add(a, big.NewInt(int64(c.Range(-1, 1, "off"))))
				b.Lsh(b, 101)
			}
			bigInt(c, a, b)
		}
	})
}

func TestBigRat(t *testing.T) {
	rat := func(c *vt.C, l string) *big.Rat {
		d := vt.DrawBig(c.T, 80, l+".den")
		if d.Sign() == 0 {
			d.SetInt64(1)
		}
		return new(big.Rat).SetFrac(vt.DrawBig(c.T, 80, l+".num"), d)
	}
	vt.Check(t, 20000, "big.Rat operands of up to 80 bits above and below, or sometimes 1200; the quotient is nil, other, or an operand; non-trivial: divisor not 0", func(c *vt.C) {
		a, b := rat(c, "a"), rat(c, "b")
		if c.Range(0, 9, "same") == 0 {
			b = a
		}
		div := both[*big.Rat]()[c.Range(0, 1, "fn")]
		a0, b0 := new(big.Rat).Set(a), new(big.Rat).Set(b)
		mode := c.Range(0, 3, "quotient")
		q := []*big.Rat{nil, big.NewRat(7, 5), a, b}[mode]
		err := div(a, b, &q)
		if b0.Sign() == 0 {
			if !errors.Is(err, mm.DivByZeroErr) {
				c.Fatalf("%v / 0: error %v", a0, err)
			}
			return
		}
		if err != nil || new(big.Rat).Mul(q, b0).Cmp(a0) != 0 {
			c.Fatalf("%v / %v = %v, error %v", a0, b0, q, err)
		}
		if (q != a && a.Cmp(a0) != 0) || (q != b && b.Cmp(b0) != 0) {
			c.Fatalf("%v / %v changed its operands to %v and %v", a0, b0, a, b)
		}
		c.NonTrivial("%v / %v", a0, b0)
	})
}

func TestBigFloat(t *testing.T) {
	draw := func(c *vt.C, l string) *big.Float {
		if c.Range(0, 9, l+".special") == 0 {
			return big.NewFloat([]float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1)}[c.Range(0, 3, l+".which")])
		}
		f := big.NewFloat(vt.DrawFloat64(c.T, l))
		if c.Bool(l + ".precise") { // more or fewer bits than a double
			p := []uint{10, 24, 64, 100, 200, 600, 2000}[c.Range(0, 6, l+".prec")]
			m := vt.DrawBigIn(c.T, new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), p), big.NewInt(1)), l+".mantissa")
			g := new(big.Float).SetPrec(p).SetInt(m)
			f = g.SetMantExp(g, f.MantExp(nil)-int(p))
		}
		return f
	}
	vt.Check(t, 20000, "big.Float operands of 10 to 2000 bits, zeros and infinities included; the quotient is nil, another of 53 bits, or an operand, and operands may be the same; non-trivial: quotient finite", func(c *vt.C) {
		a, b := draw(c, "a"), draw(c, "b")
		div := both[*big.Float]()[c.Range(0, 1, "fn")]
		if c.Range(0, 9, "same") == 0 {
			b = a
		}
		a0, b0 := new(big.Float).Set(a), new(big.Float).Set(b)
		mode := c.Range(0, 3, "quotient")
		q := []*big.Float{nil, big.NewFloat(77), a, b}[mode]
		q0 := q
		var prec uint
		if q != nil {
			prec = q.Prec()
		}
		err := div(a, b, &q)
		if (q0 != a && a.Cmp(a0) != 0) || (q0 != b && b.Cmp(b0) != 0) {
			c.Fatalf("%v / %v changed its operands to %v and %v", a0, b0, a, b)
		}
		if (a0.Sign() == 0 && b0.Sign() == 0) || (a0.IsInf() && b0.IsInf()) {
			if err == nil {
				c.Fatalf("%v / %v: not a number, got %v without an error", a, b, q)
			}
			c.Class("not a number")
			return
		}
		// rounded to the precision of the quotient given, or that of the more precise operand
		want := new(big.Float).SetPrec(max(a0.Prec(), b0.Prec()))
		if q0 != nil {
			want.SetPrec(prec)
		}
		want.Quo(a0, b0)
		if err != nil || q.Cmp(want) != 0 || q0 != nil && q != q0 {
			c.Fatalf("%v / %v: want %v, got %v with error %v", a, b, want, q, err)
		}
		if !q.IsInf() {
			c.NonTrivial("%v / %v", a, b)
		}
	})
}

// Methods of named types do not matter; the texts still tell values apart.
func (m MyInt) String() string  { return fmt.Sprint("1", int(m)) }
func (m MyInt) Cmp(o MyInt) int { return vt.Compare(int(o), int(m)) }

func (m MyInt8) Neg() MyInt8         { return m }
func (m MyInt8) IsZero() bool        { return m != 0 }
func (m MyInt8) Equal(o MyInt8) bool { return m != o }

func (m MyInt64) Error() string       { return fmt.Sprint("1", int64(m)) }
func (m MyInt64) Less(o MyInt64) bool { return o < m }

func (m MyUint) Cmp(o MyUint) int    { return vt.Compare(uint(o), uint(m)) }
func (m MyUint) Equal(o MyUint) bool { return m != o }

func (m MyUint16) String() string { return fmt.Sprint("1", uint16(m)) }

func (m MyF32) Cmp(o MyF32) int { return vt.Compare(float32(o), float32(m)) }

func (m MyF64) String() string { return fmt.Sprint("1", float64(m)) }
func (m MyF64) IsZero() bool   { return m != 0 }
