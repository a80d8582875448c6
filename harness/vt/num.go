package vt

import (
	"math"
	"math/big"
	"math/bits"
	"reflect"

	"pgregory.net/rapid"
)

// Signed and Unsigned describe the integer types and types derived from them
type Signed interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64
}
type Unsigned interface {
	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}
type Integer interface{ Signed | Unsigned }
type Float interface{ ~float32 | ~float64 }

// Bounds returns the smallest and largest value of an integer kind.
func Bounds(k reflect.Kind) (lo, hi *big.Int) {
	bits := map[reflect.Kind]uint{
		reflect.Int: 64, reflect.Int8: 8, reflect.Int16: 16, reflect.Int32: 32, reflect.Int64: 64,
		reflect.Uint: 64, reflect.Uint8: 8, reflect.Uint16: 16, reflect.Uint32: 32, reflect.Uint64: 64,
	}[k]
	one := big.NewInt(1)
	if k >= reflect.Int && k <= reflect.Int64 {
		hi = new(big.Int).Lsh(one, bits-1)
		lo = new(big.Int).Neg(hi)
		return lo, hi.Sub(hi, one)
	}
	hi = new(big.Int).Lsh(one, bits)
	return new(big.Int), hi.Sub(hi, one)
}

// BoundsOf returns the bounds of T.
func BoundsOf[T Integer]() (lo, hi *big.Int) {
	var z T
	return Bounds(reflect.TypeOf(z).Kind())
}

// Big is the exact value of an integer.
func Big[T Integer](v T) *big.Int {
	rv := reflect.ValueOf(v)
	if rv.CanInt() {
		return big.NewInt(rv.Int())
	}
	return new(big.Int).SetUint64(rv.Uint())
}

// FromBig is the value of T equal to b, which has to be in range.
func FromBig[T Integer](b *big.Int) (res T) {
	rv := reflect.ValueOf(&res).Elem()
	if rv.CanInt() {
		rv.SetInt(b.Int64())
	} else {
		rv.SetUint(b.Uint64())
	}
	return
}

// InRange is true if b is a value of T.
func InRange[T Integer](b *big.Int) bool {
	lo, hi := BoundsOf[T]()
	return b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0
}

// DrawInt draws a value of T: near a bound, near a power of two or ten, small, or uniform.
func DrawInt[T Integer](t *rapid.T, label string) T {
	lo, hi := BoundsOf[T]()
	return FromBig[T](DrawBigIn(t, lo, hi, label))
}

// DrawBigIn draws an integer of [lo, hi] like DrawInt.
func DrawBigIn(t *rapid.T, lo, hi *big.Int, label string) *big.Int {
	var v *big.Int
	switch rapid.IntRange(0, 6).Draw(t, label+".shape") {
	case 0: // small
		v = big.NewInt(rapid.Int64Range(-12, 12).Draw(t, label+".small"))
	case 1: // lower bound
		v = new(big.Int).Add(lo, big.NewInt(rapid.Int64Range(0, 3).Draw(t, label+".off")))
	case 2: // upper bound
		v = new(big.Int).Sub(hi, big.NewInt(rapid.Int64Range(0, 3).Draw(t, label+".off")))
	case 3: // power of two
		v = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, hi.BitLen()).Draw(t, label+".bits")))
		v.Add(v, big.NewInt(rapid.Int64Range(-2, 2).Draw(t, label+".off")))
		if rapid.Bool().Draw(t, label+".neg") {
			v.Neg(v)
		}
	case 4: // power of ten, times a digit
		v = new(big.Int).Exp(big.NewInt(10), big.NewInt(rapid.Int64Range(0, 19).Draw(t, label+".pow")), nil)
		v.Mul(v, big.NewInt(rapid.Int64Range(1, 9).Draw(t, label+".digit")))
		v.Add(v, big.NewInt(rapid.Int64Range(-1, 1).Draw(t, label+".off")))
		if rapid.Bool().Draw(t, label+".neg") {
			v.Neg(v)
		}
	case 5: // medium
		v = big.NewInt(rapid.Int64Range(-100000, 100000).Draw(t, label+".medium"))
	default:
		span := new(big.Int).Sub(hi, lo)
		span.Add(span, big.NewInt(1))
		v = new(big.Int).SetUint64(rapid.Uint64().Draw(t, label+".uniform"))
		for v.BitLen() > 0 && span.BitLen() > 64 && v.BitLen() < span.BitLen() {
			v.Lsh(v, 64)
			v.Or(v, new(big.Int).SetUint64(rapid.Uint64().Draw(t, label+".more")))
		}
		v.Mod(v, span).Add(v, lo)
	}
	if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
		// bring it in range, keeping what is special about the low bits
		span := new(big.Int).Sub(hi, lo)
		span.Add(span, big.NewInt(1))
		v = new(big.Int).Add(lo, new(big.Int).Mod(new(big.Int).Sub(v, lo), span))
	}
	return v
}

// DrawFloat64 draws a finite float64: a decimal with few digits, a value near an integer bound, a power of two, or any.
func DrawFloat64(t *rapid.T, label string) float64 {
	switch rapid.IntRange(0, 6).Draw(t, label+".shape") {
	case 0:
		if rapid.IntRange(0, 3).Draw(t, label+".limit") == 0 {
			// near the limits of a float32, or halfway to the next one
			f := rapid.SampledFrom([]float64{math.MaxFloat32, 0x1.ffffffp127, 0x1p128, math.SmallestNonzeroFloat32, 0x1p-150, 0x1p-126, math.MaxFloat64, math.SmallestNonzeroFloat64}).Draw(t, label+".near")
			f = math.Float64frombits(math.Float64bits(f) + uint64(int64(rapid.IntRange(-2, 2).Draw(t, label+".ulps"))))
			if math.IsInf(f, 0) || math.IsNaN(f) {
				f = math.MaxFloat64
			}
			if rapid.Bool().Draw(t, label+".neg") {
				f = -f
			}
			return f
		}
		return float64(rapid.IntRange(-20, 20).Draw(t, label+".int"))
	case 1: // quarters
		return float64(rapid.IntRange(-100000, 100000).Draw(t, label+".quarters")) / 4
	case 2: // decimals
		n := rapid.Int64Range(-1000000, 1000000).Draw(t, label+".unscaled")
		return float64(n) / math.Pow10(rapid.IntRange(0, 8).Draw(t, label+".scale"))
	case 3: // near a power of two
		e := rapid.IntRange(-160, 160).Draw(t, label+".exp")
		if rapid.Bool().Draw(t, label+".intexp") {
			e = rapid.SampledFrom([]int{7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127, 128}).Draw(t, label+".intbits")
		}
		f := math.Ldexp(1, e)
		switch rapid.IntRange(0, 4).Draw(t, label+".step") {
		case 0:
			f = math.Nextafter(f, math.Inf(1))
		case 1:
			f = math.Nextafter(f, 0)
		case 2:
			f--
		case 3:
			f++
		}
		if rapid.Bool().Draw(t, label+".neg") {
			f = -f
		}
		return f
	case 4: // integers of any magnitude up to 2^70
		n := rapid.Int64().Draw(t, label+".int64")
		return math.Ldexp(float64(n>>uint(rapid.IntRange(0, 62).Draw(t, label+".shift"))), rapid.IntRange(0, 6).Draw(t, label+".scale2"))
	case 5: // exactly a float32
		return float64(rapid.Float32().Draw(t, label+".float32"))
	default:
		return rapid.Float64().Draw(t, label+".any")
	}
}

// DrawBig draws an integer of at most the given number of bits, of either sign.
// One time in 16 it may have 15 times as many bits.
func DrawBig(t *rapid.T, bits int, label string) *big.Int {
	if rapid.IntRange(0, 15).Draw(t, label+".wide") == 15 {
		bits *= 15
	}
	n := rapid.IntRange(0, bits).Draw(t, label+".bits")
	hi := new(big.Int).Lsh(big.NewInt(1), uint(n))
	return DrawBigIn(t, new(big.Int).Neg(hi), hi, label)
}

// Range draws an int of [lo, hi].
func (c *C) Range(lo, hi int, label string) int {
	if c.all != nil {
		return c.all.choose(lo, hi, label)
	}
	return rapid.IntRange(lo, hi).Draw(c.T, label)
}

// Bool draws a bool.
func (c *C) Bool(label string) bool {
	if c.all != nil {
		return c.all.choose(0, 1, label) == 1
	}
	return rapid.Bool().Draw(c.T, label)
}

// SizeOr draws a size up to max, or once in a while one up to huge.
func (c *C) SizeOr(max, huge int, label string) int {
	if c.Range(0, 24, label+".huge") == 0 {
		return c.Size(huge, label)
	}
	return c.Size(max, label)
}

// Size draws a size up to max, often around the powers of two at which buffers end or counters wrap around.
func (c *C) Size(max int, label string) int {
	if c.Bool(label + ".any") {
		return c.Range(0, max, label)
	}
	return min(max, 1<<c.Range(0, bits.Len(uint(max)), label+".log")+c.Range(-1, 2, label+".off"))
}

// Seq draws a sequence of up to max of the pieces.
func (c *C) Seq(max int, pieces ...string) string {
	s := ""
	for range max {
		k := c.Range(0, len(pieces), "piece")
		if k == 0 {
			break
		}
		s += pieces[k-1]
	}
	return s
}

// SmallDec draws a decimal with an unscaled value of [-max, max].
func (c *C) SmallDec(max, scale int, label string) Dec {
	return Dec{Val: int64(c.Range(-max, max, label)), Scale: uint(c.Range(0, scale, label+".scale"))}
}

// EdgeDecs are decimals of unscaled values next to powers of ten and to half of them, of both signs, with few and with many
// digits after the point.
func EdgeDecs(signs ...int64) (res []Dec) {
	vals := []int64{0, 1, 2, 3, 333333333333333333, 666666666666666667, 1 << 59}
	for _, k := range []uint{1, 2, 8, 9, 10, 16, 17, 18} {
		p := Pow10(k).Int64()
		vals = append(vals, p-1, 5*p/10, 5*p/10-1, 5*p/10+1)
		if k < 18 {
			vals = append(vals, p, p+1)
		}
	}
	for _, v := range vals {
		for _, scale := range []uint{0, 1, 8, 9, 17, 18} {
			for _, sign := range signs {
				res = append(res, Dec{Val: sign * v, Scale: scale})
			}
		}
	}
	return
}

// Edges are the values of T next to powers of two, to the square root, halves and thirds of its bounds, and small ones.
func Edges[T Integer]() (res []T) {
	lo, hi := BoundsOf[T]()
	seen := map[string]bool{}
	around := func(b *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			for _, neg := range []bool{false, true} {
				x := new(big.Int).Add(b, big.NewInt(d))
				if neg {
					x.Neg(x)
				}
				if s := x.String(); !seen[s] && x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
					seen[s] = true
					res = append(res, FromBig[T](x))
				}
			}
		}
	}
	for _, b := range []*big.Int{new(big.Int), big.NewInt(5), big.NewInt(10), new(big.Int).Sqrt(hi), new(big.Int).Quo(hi, big.NewInt(3)), new(big.Int).Sqrt(new(big.Int).Rsh(hi, 1))} {
		around(b)
	}
	for _, k := range []uint{3, 7, 8, 15, 16, 31, 32, 47, 61, 62, 63, 64} {
		around(new(big.Int).Lsh(big.NewInt(1), k))
	}
	return
}

// Compare is -1, 0 or 1.
func Compare[T Integer | Float | ~string](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}
