package c05

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"testing"

	mm "github.com/bantling/micro/math"
	"verif/harness/vt"
)

type (
	MyInt    int
	MyInt8   int8
	MyInt64  int64
	MyUint   uint
	MyUint16 uint16
	MyF32    float32
	MyF64    float64
)

// expect checks an outcome against the exact result: in range means nil error and that very value, out of range means
// the error of that direction.
func expect[T vt.Integer](op string, a, b T, exact *big.Int, got T, err error) string {
	lo, hi := vt.BoundsOf[T]()
	switch {
	case exact.Cmp(hi) > 0:
		if !errors.Is(err, mm.OverflowErr) {
			return fmt.Sprintf("%s(%v, %v) in %T: exact result %v is too large, got %v with error %v", op, a, b, a, exact, got, err)
		}
	case exact.Cmp(lo) < 0:
		if !errors.Is(err, mm.UnderflowErr) {
			return fmt.Sprintf("%s(%v, %v) in %T: exact result %v is too small, got %v with error %v", op, a, b, a, exact, got, err)
		}
	default:
		if err != nil || vt.Big(got).Cmp(exact) != 0 {
			return fmt.Sprintf("%s(%v, %v) in %T: want %v, got %v with error %v", op, a, b, a, exact, got, err)
		}
	}
	return ""
}

func addSigned[T vt.Signed](a, b T) string {
	r := b
	err := mm.AddInt(a, &r)
	return expect("AddInt", a, b, new(big.Int).Add(vt.Big(a), vt.Big(b)), r, err)
}

func subSigned[T vt.Signed](a, b T) string {
	r := b
	err := mm.SubInt(a, &r)
	return expect("SubInt", a, b, new(big.Int).Sub(vt.Big(a), vt.Big(b)), r, err)
}

func addUnsigned[T vt.Unsigned](a, b T) string {
	r := b
	err := mm.AddUint(a, &r)
	return expect("AddUint", a, b, new(big.Int).Add(vt.Big(a), vt.Big(b)), r, err)
}

func subUnsigned[T vt.Unsigned](a, b T) string {
	r := b
	err := mm.SubUint(a, &r)
	return expect("SubUint", a, b, new(big.Int).Sub(vt.Big(a), vt.Big(b)), r, err)
}

func mul[T vt.Integer](a, b T) string {
	r := b
	err := mm.Mul(a, &r)
	return expect("Mul", a, b, new(big.Int).Mul(vt.Big(a), vt.Big(b)), r, err)
}

func abs[T vt.Integer](a T) string {
	r := a
	err := mm.Abs(&r)
	exact := new(big.Int).Abs(vt.Big(a))
	if vt.InRange[T](exact) {
		if err != nil || vt.Big(r).Cmp(exact) != 0 {
			return fmt.Sprintf("Abs(%v) in %T: got %v with error %v", a, a, r, err)
		}
	} else if err == nil {
		return fmt.Sprintf("Abs(%v) in %T: there is no such value, got %v without an error", a, a, r)
	}
	return ""
}

func fits[T vt.Integer](b *big.Int) string {
	if vt.InRange[T](b) {
		return "fits"
	}
	return "does not fit"
}

func signed[T vt.Signed](c *vt.C) {
	a, b := vt.DrawInt[T](c.T, "a"), vt.DrawInt[T](c.T, "b")
	// often near the bound of the operation
	sum := new(big.Int).Add(vt.Big(a), vt.Big(b))
	prod := new(big.Int).Mul(vt.Big(a), vt.Big(b))
	c.Class("sum %s", fits[T](sum))
	c.Class("product %s", fits[T](prod))
	for _, s := range []string{addSigned(a, b), subSigned(a, b), mul(a, b), abs(a)} {
		if s != "" {
			c.Fatalf("%s", s)
		}
	}
	if a != 0 && b != 0 {
		c.NonTrivial("%T %v %v", a, a, b)
	}
}

func unsigned[T vt.Unsigned](c *vt.C) {
	a, b := vt.DrawInt[T](c.T, "a"), vt.DrawInt[T](c.T, "b")
	c.Class("sum %s", fits[T](new(big.Int).Add(vt.Big(a), vt.Big(b))))
	c.Class("product %s", fits[T](new(big.Int).Mul(vt.Big(a), vt.Big(b))))
	for _, s := range []string{addUnsigned(a, b), subUnsigned(a, b), mul(a, b), abs(a)} {
		if s != "" {
			c.Fatalf("%s", s)
		}
	}
	if a != 0 && b != 0 {
		c.NonTrivial("%T %v %v", a, a, b)
	}
}

// The factors of products near the bounds of a type: a * b with a = (bound / b) + {-1, 0, 1}
func mulBound[T vt.Integer](c *vt.C) {
	b := vt.DrawInt[T](c.T, "b")
	if b == 0 {
		b = 1
	}
	lo, hi := vt.BoundsOf[T]()
	bound := hi
	if lo.Sign() < 0 && c.Bool("lower") {
		bound = lo
	}
	ab := new(big.Int).Quo(bound, vt.Big(b))
	ab.Add(ab, big.NewInt(int64(c.Range(-1, 1, "off"))))
	if !vt.InRange[T](ab) {
		ab.Set(hi)
	}
	a := vt.FromBig[T](ab)
	c.Class("product %s", fits[T](new(big.Int).Mul(vt.Big(a), vt.Big(b))))
	if s := mul(a, b); s != "" {
		c.Fatalf("%s", s)
	}
	c.NonTrivial("%T %v %v", a, a, b)
}

const rule = "two values of every integer type or a type derived from one, near bounds, powers of two and ten, small or uniform; " +
	"non-trivial: both operands differ from zero"

func TestSigned(t *testing.T) {
	fs := []func(*vt.C){signed[int], signed[int8], signed[int16], signed[int32], signed[int64], signed[MyInt], signed[MyInt8], signed[MyInt64]}
	vt.Check(t, 60000, rule, func(c *vt.C) { fs[c.Range(0, len(fs)-1, "type")](c) })
}

func TestUnsigned(t *testing.T) {
	fs := []func(*vt.C){unsigned[uint], unsigned[uint8], unsigned[uint16], unsigned[uint32], unsigned[uint64], unsigned[MyUint], unsigned[MyUint16]}
	vt.Check(t, 60000, rule, func(c *vt.C) { fs[c.Range(0, len(fs)-1, "type")](c) })
}

func TestMulBound(t *testing.T) {
	fs := []func(*vt.C){
		mulBound[int], mulBound[int8], mulBound[int16], mulBound[int32], mulBound[int64], mulBound[MyInt],
		mulBound[uint], mulBound[uint8], mulBound[uint16], mulBound[uint32], mulBound[uint64], mulBound[MyUint16],
	}
	vt.Check(t, 40000, "factors whose product is next to a bound of the type; all are non-trivial", func(c *vt.C) { fs[c.Range(0, len(fs)-1, "type")](c) })
}

func TestTableBytes(t *testing.T) {
	vt.Table(t, "every pair of int8 values and every pair of uint8 values, in add, subtract, multiply and absolute value", func(each func(string, func(func(string, ...any)))) {
		for i := -128; i <= 127; i++ {
			each(fmt.Sprintf("int8 %d with all", i), func(fail func(string, ...any)) {
				for j := -128; j <= 127; j++ {
					a, b := int8(i), int8(j)
					for _, s := range []string{addSigned(a, b), subSigned(a, b), mul(a, b), abs(a)} {
						if s != "" {
							fail("%s", s)
						}
					}
				}
			})
			each(fmt.Sprintf("uint8 %d with all", i+128), func(fail func(string, ...any)) {
				for j := 0; j <= 255; j++ {
					a, b := uint8(i+128), uint8(j)
					for _, s := range []string{addUnsigned(a, b), subUnsigned(a, b), mul(a, b), abs(a)} {
						if s != "" {
							fail("%s", s)
						}
					}
				}
			})
		}
	})
}

// Absolute value of the types that have no bounds
func TestAbsOther(t *testing.T) {
	vt.Check(t, 20000, "floats and big numbers of any sign, infinities and negative zero included; non-trivial: negative", func(c *vt.C) {
		switch c.Range(0, 4, "type") {
		case 0:
			f := vt.DrawFloat64(c.T, "f")
			if c.Range(0, 9, "special") == 0 {
				f = []float64{math.Inf(-1), math.Inf(1), math.Copysign(0, -1)}[c.Range(0, 2, "which")]
			}
			g, h, k := f, float32(f), MyF64(f)
			e1, e2, e3 := mm.Abs(&g), mm.Abs(&h), mm.Abs(&k)
			if e1 != nil || e2 != nil || e3 != nil || math.Float64bits(g) != math.Float64bits(math.Abs(f)) ||
				float64(h) != math.Abs(float64(float32(f))) || float64(k) != math.Abs(f) || math.Signbit(float64(h)) {
				c.Fatalf("Abs(%v) = %v, %v, %v with errors %v, %v, %v", f, g, h, k, e1, e2, e3)
			}
			if f < 0 {
				c.NonTrivial("float %v", f)
			}
		case 1:
			b := vt.DrawBig(c.T, 200, "b")
			r := new(big.Int).Set(b)
			if err := mm.Abs(&r); err != nil || r.Cmp(new(big.Int).Abs(b)) != 0 {
				c.Fatalf("Abs(%v) = %v, %v", b, r, err)
			}
			if b.Sign() < 0 {
				c.NonTrivial("big.Int %v", b)
			}
		case 2:
			f := new(big.Float).SetFloat64(vt.DrawFloat64(c.T, "f"))
			r := new(big.Float).Set(f)
			if err := mm.Abs(&r); err != nil || r.Cmp(new(big.Float).Abs(f)) != 0 {
				c.Fatalf("Abs(%v) = %v, %v", f, r, err)
			}
			if f.Sign() < 0 {
				c.NonTrivial("big.Float %v", f)
			}
		default:
			d := vt.DrawBig(c.T, 100, "d")
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			x := new(big.Rat).SetFrac(vt.DrawBig(c.T, 100, "n"), d)
			r := new(big.Rat).Set(x)
			if err := mm.Abs(&r); err != nil || r.Cmp(new(big.Rat).Abs(x)) != 0 {
				c.Fatalf("Abs(%v) = %v, %v", x, r, err)
			}
			if x.Sign() < 0 {
				c.NonTrivial("big.Rat %v", x)
			}
		}
	})
}

func edges[T vt.Integer](c *vt.C, ops ...func(a, b T) string) {
	v := vt.Edges[T]()
	a := v[c.Range(0, len(v)-1, "a")]
	for _, b := range v {
		for _, op := range ops {
			if s := op(a, b); s != "" {
				c.Fatalf("%s", s)
			}
		}
	}
	if s := abs(a); s != "" {
		c.Fatalf("%s", s)
	}
	c.NonTrivial("%T %v", a, a)
}

// Every pair of values at the edges of each type
func TestAllEdges(t *testing.T) {
	vt.All(t, 1000000, "each value next to a power of two, or to the root, half or third of a bound of its type, with all such values; all are non-trivial", func(c *vt.C) {
		[]func(){
			func() { edges(c, addSigned[int], subSigned[int], mul[int]) },
			func() { edges(c, addSigned[int16], subSigned[int16], mul[int16]) },
			func() { edges(c, addSigned[int32], subSigned[int32], mul[int32]) },
			func() { edges(c, addSigned[int64], subSigned[int64], mul[int64]) },
			func() { edges(c, addSigned[MyInt], subSigned[MyInt], mul[MyInt]) },
			func() { edges(c, addUnsigned[uint], subUnsigned[uint], mul[uint]) },
			func() { edges(c, addUnsigned[uint16], subUnsigned[uint16], mul[uint16]) },
			func() { edges(c, addUnsigned[uint32], subUnsigned[uint32], mul[uint32]) },
			func() { edges(c, addUnsigned[uint64], subUnsigned[uint64], mul[uint64]) },
			func() { edges(c, addUnsigned[MyUint16], subUnsigned[MyUint16], mul[MyUint16]) },
		}[c.Range(0, 9, "type")]()
	})
}

// Methods of named types do not matter; the texts still tell values apart.
func (m MyInt) String() string  { return fmt.Sprint("1", int(m)) }
func (m MyInt) Cmp(o MyInt) int { return vt.Compare(int(o), int(m)) }

func (m MyInt8) Neg() MyInt8         { return m }
func (m MyInt8) IsZero() bool        { return m != 0 }
func (m MyInt8) Equal(o MyInt8) bool { return m != o }

func (m MyInt64) Error() string       { return fmt.Sprint("1", int64(m)) }
func (m MyInt64) Less(o MyInt64) bool { return o < m }

func (m MyUint) Cmp(o MyUint) int    { return vt.Compare(uint(o), uint(m)) }
func (m MyUint) Equal(o MyUint) bool { return m != o }

func (m MyUint16) String() string { return fmt.Sprint("1", uint16(m)) }

func (m MyF32) Cmp(o MyF32) int { return vt.Compare(float32(o), float32(m)) }

func (m MyF64) String() string { return fmt.Sprint("1", float64(m)) }
func (m MyF64) IsZero() bool   { return m != 0 }
