// Package convx lists every numeric conversion of the conv package behind one signature, and models what it has to do.
package convx

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// Named types: the conversions accept them like their underlying types
type (
	MyInt   int
	MyInt8  int8
	MyInt64 int64
	MyUint  uint
	MyU16   uint16
	MyF32   float32
	MyF64   float64
)

// Kind of a number
type Kind int

const (
	Finite Kind = iota
	PInf
	NInf
	NaN
)

// Num is the exact value of any numeric value.
type Num struct {
	K Kind
	R *big.Rat
}

func (n Num) String() string {
	switch n.K {
	case PInf:
		return "+Inf"
	case NInf:
		return "-Inf"
	case NaN:
		return "NaN"
	}
	return n.R.RatString()
}

// Same is numeric equality, where NaN is NaN.
func (n Num) Same(o Num) bool {
	return n.K == o.K && (n.K != Finite || n.R.Cmp(o.R) == 0)
}

func ofFloat(f float64) Num {
	switch {
	case math.IsNaN(f):
		return Num{K: NaN}
	case math.IsInf(f, 1):
		return Num{K: PInf}
	case math.IsInf(f, -1):
		return Num{K: NInf}
	}
	return Num{R: new(big.Rat).SetFloat64(f)}
}

// Of is the exact value of v; ok is false if v is a nil pointer.
func Of(v any) (n Num, ok bool) {
	switch b := v.(type) {
	case *big.Int:
		if b == nil {
			return Num{}, false
		}
		return Num{R: new(big.Rat).SetInt(b)}, true
	case *big.Rat:
		if b == nil {
			return Num{}, false
		}
		return Num{R: new(big.Rat).Set(b)}, true
	case *big.Float:
		if b == nil {
			return Num{}, false
		}
		if b.IsInf() {
			if b.Signbit() {
				return Num{K: NInf}, true
			}
			return Num{K: PInf}, true
		}
		r, _ := b.Rat(nil)
		return Num{R: r}, true
	}
	rv := reflect.ValueOf(v)
	switch {
	case rv.CanInt():
		return Num{R: new(big.Rat).SetInt64(rv.Int())}, true
	case rv.CanUint():
		return Num{R: new(big.Rat).SetFrac(new(big.Int).SetUint64(rv.Uint()), big.NewInt(1))}, true
	case rv.CanFloat():
		return ofFloat(rv.Float()), true
	}
	panic(fmt.Sprintf("not a number: %T", v))
}

var (
	bigInt   = reflect.TypeOf((*big.Int)(nil))
	bigFloat = reflect.TypeOf((*big.Float)(nil))
	bigRat   = reflect.TypeOf((*big.Rat)(nil))
)

// Dyadic is true if the denominator is a power of two.
func Dyadic(r *big.Rat) bool {
	d := r.Denom()
	return d.TrailingZeroBits()+1 == uint(d.BitLen())
}

// Representable is true if the type has a value equal to n.
func Representable(n Num, typ reflect.Type) bool {
	switch typ {
	case bigInt:
		return n.K == Finite && n.R.IsInt()
	case bigRat:
		return n.K == Finite
	case bigFloat:
		return n.K == PInf || n.K == NInf || n.K == Finite && Dyadic(n.R)
	}
	switch k := typ.Kind(); k {
	case reflect.Float32:
		if n.K != Finite {
			return true
		}
		f, _ := n.R.Float32() // the exact result of math/big is wrong for some values that underflow
		return ofFloat(float64(f)).Same(n)
	case reflect.Float64:
		if n.K != Finite {
			return true
		}
		f, _ := n.R.Float64()
		return ofFloat(f).Same(n)
	default:
		if n.K != Finite || !n.R.IsInt() {
			return false
		}
		lo, hi := vt.Bounds(k)
		return n.R.Num().Cmp(lo) >= 0 && n.R.Num().Cmp(hi) <= 0
	}
}

// Rounds is true for the conversions that are defined to round: float64 to float32 within range of a float32, and a
// ratio whose denominator is not a power of two to *big.Float.
func Rounds(in any, n Num, out reflect.Type) bool {
	ik := reflect.TypeOf(in)
	switch {
	case out.Kind() == reflect.Float32 && ik.Kind() == reflect.Float64:
		if n.K != Finite || Representable(n, out) {
			return false
		}
		f, _ := n.R.Float64()
		a := math.Abs(f)
		return a >= math.SmallestNonzeroFloat32 && a <= math.MaxFloat32
	case out == bigFloat && ik == bigRat:
		return !Dyadic(n.R)
	}
	return false
}

// Rounded is true if got is an acceptable rounding of n, for the conversions that round.
func Rounded(n Num, got Num, out reflect.Type) bool {
	if got.K != Finite {
		return false
	}
	if out.Kind() == reflect.Float32 {
		f, _ := n.R.Float32()
		return got.R.Cmp(new(big.Rat).SetFloat64(float64(f))) == 0
	}
	// *big.Float has to be at least as precise as a float64
	diff := new(big.Rat).Sub(n.R, got.R)
	diff.Abs(diff)
	lim := new(big.Rat).Abs(n.R)
	return diff.Cmp(lim.Quo(lim, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 52)))) <= 0
}

// Conv is one conversion.
type Conv struct {
	Name    string
	In, Out reflect.Type
	// F converts an In, returning an Out and true if the conversion succeeded
	F func(in any) (out any, err error)
	// Must is the variant of F that panics, if there is one
	Must func(in any) (out any)
}

// All conversions, and those of each input type
var (
	All  []Conv
	ByIn = map[reflect.Type][]int{}
	ByIO = map[[2]reflect.Type][]int{}
)

func add(name string, in, out reflect.Type, f func(any) (any, error), must func(any) any) {
	All = append(All, Conv{Name: fmt.Sprintf("%s %s -> %s", name, in, out), In: in, Out: out, F: f, Must: must})
	ByIn[in] = append(ByIn[in], len(All)-1)
	ByIO[[2]reflect.Type{in, out}] = append(ByIO[[2]reflect.Type{in, out}], len(All)-1)
}

// fill sets a variable to a value that a conversion into it is to replace, most of the time
func fill(in, o any) {
	h := uint64(14695981039346656037)
	switch v := reflect.ValueOf(in); {
	case v.CanInt():
		h ^= uint64(v.Int())
	case v.CanUint():
		h ^= uint64(v.Uint())
	case v.CanFloat():
		h ^= math.Float64bits(v.Float())
	default:
		for _, b := range fmt.Sprint(in) {
			h = (h ^ uint64(b)) * 1099511628211
		}
	}
	n := int(h * 0x9e3779b97f4a7c15 >> 32 % 5)
	if n == 0 {
		return
	}
	switch o := o.(type) {
	case **big.Int:
		*o = big.NewInt([]int64{0, 7, -1 << 40, 1}[n-1])
	case **big.Float:
		*o = new(big.Float).SetPrec([]uint{0, 1, 24, 2000}[n-1]).SetMode(big.RoundingMode(n)).SetInt64(int64(n - 2))
	case **big.Rat:
		*o = big.NewRat(int64(n-2), int64(2*n-1))
	default:
		v := reflect.ValueOf(o).Elem()
		switch {
		case v.CanInt():
			v.SetInt(int64(n - 3))
		case v.CanUint():
			v.SetUint(uint64(n))
		case v.CanFloat():
			v.SetFloat(float64(n) - 2.5)
		case v.Kind() == reflect.String:
			v.SetString("filled")
		}
	}
}

// fn is a conversion function with an error result, and must its panicking variant
func fn[I, O any](name string, f func(I, *O) error, must func(I, *O)) {
	var i I
	var o O
	m := func(in any) any { var o O; fill(in, &o); must(in.(I), &o); return o }
	if must == nil {
		m = nil
	}
	add(name, reflect.TypeOf(i), reflect.TypeOf(o), func(in any) (any, error) {
		var o O
		fill(in, &o)
		err := f(in.(I), &o)
		return o, err
	}, m)
}

// fn0 is a conversion function that cannot fail
func fn0[I, O any](name string, f func(I, *O)) {
	fn(name, func(i I, o *O) error { f(i, o); return nil }, f)
}

func generic[I, O constraint.Numeric]() {
	fn("To", conv.To[I, O], conv.MustTo[I, O])
	fn("AnyTo", func(i I, o *O) error { return conv.AnyTo(i, o) }, nil)
	fn("ReflectTo", func(i I, o *O) error { return conv.ReflectTo(reflect.ValueOf(i), reflect.ValueOf(o)) },
		func(i I, o *O) { conv.MustReflectTo(reflect.ValueOf(i), reflect.ValueOf(o)) })
}

func basics[I constraint.Numeric]() {
	generic[I, int]()
	generic[I, int8]()
	generic[I, int16]()
	generic[I, int32]()
	generic[I, int64]()
	generic[I, uint]()
	generic[I, uint8]()
	generic[I, uint16]()
	generic[I, uint32]()
	generic[I, uint64]()
	generic[I, float32]()
	generic[I, float64]()
	generic[I, *big.Int]()
	generic[I, *big.Float]()
	generic[I, *big.Rat]()
	generic[I, MyInt8]()
	generic[I, MyU16]()
	generic[I, MyF32]()
	generic[I, MyF64]()
	fn("ToBigOps", conv.ToBigOps[I, *big.Int], conv.MustToBigOps[I, *big.Int])
	fn("ToBigOps", conv.ToBigOps[I, *big.Float], conv.MustToBigOps[I, *big.Float])
	fn("ToBigOps", conv.ToBigOps[I, *big.Rat], conv.MustToBigOps[I, *big.Rat])
}

func fromSigned[I constraint.SignedInteger]() {
	fn("IntToInt", conv.IntToInt[I, int], conv.MustIntToInt[I, int])
	fn("IntToInt", conv.IntToInt[I, int8], conv.MustIntToInt[I, int8])
	fn("IntToInt", conv.IntToInt[I, int16], conv.MustIntToInt[I, int16])
	fn("IntToInt", conv.IntToInt[I, int32], conv.MustIntToInt[I, int32])
	fn("IntToInt", conv.IntToInt[I, int64], conv.MustIntToInt[I, int64])
	fn("IntToInt", conv.IntToInt[I, MyInt8], conv.MustIntToInt[I, MyInt8])
	fn("IntToUint", conv.IntToUint[I, uint], conv.MustIntToUint[I, uint])
	fn("IntToUint", conv.IntToUint[I, uint8], conv.MustIntToUint[I, uint8])
	fn("IntToUint", conv.IntToUint[I, uint16], conv.MustIntToUint[I, uint16])
	fn("IntToUint", conv.IntToUint[I, uint32], conv.MustIntToUint[I, uint32])
	fn("IntToUint", conv.IntToUint[I, uint64], conv.MustIntToUint[I, uint64])
	fn("IntToUint", conv.IntToUint[I, MyU16], conv.MustIntToUint[I, MyU16])
	fn0("IntToBigInt", conv.IntToBigInt[I])
	fn0("IntToBigFloat", conv.IntToBigFloat[I])
	fn0("IntToBigRat", conv.IntToBigRat[I])
	fromInteger[I]()
}

func fromUnsigned[I constraint.UnsignedInteger]() {
	fn("UintToInt", conv.UintToInt[I, int], conv.MustUintToInt[I, int])
	fn("UintToInt", conv.UintToInt[I, int8], conv.MustUintToInt[I, int8])
	fn("UintToInt", conv.UintToInt[I, int16], conv.MustUintToInt[I, int16])
	fn("UintToInt", conv.UintToInt[I, int32], conv.MustUintToInt[I, int32])
	fn("UintToInt", conv.UintToInt[I, int64], conv.MustUintToInt[I, int64])
	fn("UintToInt", conv.UintToInt[I, MyInt8], conv.MustUintToInt[I, MyInt8])
	fn("UintToUint", conv.UintToUint[I, uint], conv.MustUintToUint[I, uint])
	fn("UintToUint", conv.UintToUint[I, uint8], conv.MustUintToUint[I, uint8])
	fn("UintToUint", conv.UintToUint[I, uint16], conv.MustUintToUint[I, uint16])
	fn("UintToUint", conv.UintToUint[I, uint32], conv.MustUintToUint[I, uint32])
	fn("UintToUint", conv.UintToUint[I, uint64], conv.MustUintToUint[I, uint64])
	fn("UintToUint", conv.UintToUint[I, MyU16], conv.MustUintToUint[I, MyU16])
	fn0("UintToBigInt", conv.UintToBigInt[I])
	fn0("UintToBigFloat", conv.UintToBigFloat[I])
	fn0("UintToBigRat", conv.UintToBigRat[I])
	fromInteger[I]()
}

func fromInteger[I constraint.Integer]() {
	fn("IntToFloat", conv.IntToFloat[I, float32], conv.MustIntToFloat[I, float32])
	fn("IntToFloat", conv.IntToFloat[I, float64], conv.MustIntToFloat[I, float64])
	fn("IntToFloat", conv.IntToFloat[I, MyF32], conv.MustIntToFloat[I, MyF32])
	fn("IntToFloat", conv.IntToFloat[I, MyF64], conv.MustIntToFloat[I, MyF64])
	fn0("IntegerToBigInt", conv.IntegerToBigInt[I])
}

func fromFloat[I constraint.Float]() {
	fn("FloatToInt", conv.FloatToInt[I, int], conv.MustFloatToInt[I, int])
	fn("FloatToInt", conv.FloatToInt[I, int8], conv.MustFloatToInt[I, int8])
	fn("FloatToInt", conv.FloatToInt[I, int16], conv.MustFloatToInt[I, int16])
	fn("FloatToInt", conv.FloatToInt[I, int32], conv.MustFloatToInt[I, int32])
	fn("FloatToInt", conv.FloatToInt[I, int64], conv.MustFloatToInt[I, int64])
	fn("FloatToInt", conv.FloatToInt[I, MyInt8], conv.MustFloatToInt[I, MyInt8])
	fn("FloatToUint", conv.FloatToUint[I, uint], conv.MustFloatToUint[I, uint])
	fn("FloatToUint", conv.FloatToUint[I, uint8], conv.MustFloatToUint[I, uint8])
	fn("FloatToUint", conv.FloatToUint[I, uint16], conv.MustFloatToUint[I, uint16])
	fn("FloatToUint", conv.FloatToUint[I, uint32], conv.MustFloatToUint[I, uint32])
	fn("FloatToUint", conv.FloatToUint[I, uint64], conv.MustFloatToUint[I, uint64])
	fn("FloatToUint", conv.FloatToUint[I, MyU16], conv.MustFloatToUint[I, MyU16])
	fn("FloatToFloat", conv.FloatToFloat[I, float32], conv.MustFloatToFloat[I, float32])
	fn("FloatToFloat", conv.FloatToFloat[I, float64], conv.MustFloatToFloat[I, float64])
	fn("FloatToFloat", conv.FloatToFloat[I, MyF32], conv.MustFloatToFloat[I, MyF32])
	fn("FloatToFloat", conv.FloatToFloat[I, MyF64], conv.MustFloatToFloat[I, MyF64])
	fn("FloatToBigInt", conv.FloatToBigInt[I], conv.MustFloatToBigInt[I])
	fn("FloatToBigFloat", conv.FloatToBigFloat[I], conv.MustFloatToBigFloat[I])
	fn("FloatToBigRat", conv.FloatToBigRat[I], conv.MustFloatToBigRat[I])
}

func init() {
	basics[int]()
	basics[int8]()
	basics[int16]()
	basics[int32]()
	basics[int64]()
	basics[uint]()
	basics[uint8]()
	basics[uint16]()
	basics[uint32]()
	basics[uint64]()
	basics[float32]()
	basics[float64]()
	basics[*big.Int]()
	basics[*big.Float]()
	basics[*big.Rat]()
	basics[MyInt]()
	basics[MyInt8]()
	basics[MyInt64]()
	basics[MyUint]()
	basics[MyU16]()
	basics[MyF32]()
	basics[MyF64]()
	fromSigned[int]()
	fromSigned[int8]()
	fromSigned[int16]()
	fromSigned[int32]()
	fromSigned[int64]()
	fromSigned[MyInt]()
	fromSigned[MyInt8]()
	fromSigned[MyInt64]()
	fromUnsigned[uint]()
	fromUnsigned[uint8]()
	fromUnsigned[uint16]()
	fromUnsigned[uint32]()
	fromUnsigned[uint64]()
	fromUnsigned[MyUint]()
	fromUnsigned[MyU16]()
	fromFloat[float32]()
	fromFloat[float64]()
	fromFloat[MyF32]()
	fromFloat[MyF64]()
	fn("BigIntToInt64", conv.BigIntToInt64, conv.MustBigIntToInt64)
	fn("BigFloatToInt64", conv.BigFloatToInt64, conv.MustBigFloatToInt64)
	fn("BigRatToInt64", conv.BigRatToInt64, conv.MustBigRatToInt64)
	fn("BigIntToUint64", conv.BigIntToUint64, conv.MustBigIntToUint64)
	fn("BigFloatToUint64", conv.BigFloatToUint64, conv.MustBigFloatToUint64)
	fn("BigRatToUint64", conv.BigRatToUint64, conv.MustBigRatToUint64)
	fn("BigIntToFloat32", conv.BigIntToFloat32, conv.MustBigIntToFloat32)
	fn("BigFloatToFloat32", conv.BigFloatToFloat32, conv.MustBigFloatToFloat32)
	fn("BigRatToFloat32", conv.BigRatToFloat32, conv.MustBigRatToFloat32)
	fn("BigIntToFloat64", conv.BigIntToFloat64, conv.MustBigIntToFloat64)
	fn("BigFloatToFloat64", conv.BigFloatToFloat64, conv.MustBigFloatToFloat64)
	fn("BigRatToFloat64", conv.BigRatToFloat64, conv.MustBigRatToFloat64)
	fn("BigFloatToBigInt", conv.BigFloatToBigInt, conv.MustBigFloatToBigInt)
	fn("BigRatToBigInt", conv.BigRatToBigInt, conv.MustBigRatToBigInt)
	fn0("BigIntToBigFloat", conv.BigIntToBigFloat)
	fn0("BigRatToBigFloat", conv.BigRatToBigFloat)
	fn0("BigIntToBigRat", conv.BigIntToBigRat)
	fn("BigFloatToBigRat", conv.BigFloatToBigRat, conv.MustBigFloatToBigRat)
}

// Draw draws a value of the type, of the kind that sits at or near the limits of other types.
func Draw(t *rapid.T, typ reflect.Type, label string) any {
	switch typ {
	case bigInt:
		return DrawInteger(t, label)
	case bigRat:
		return drawRat(t, label)
	case bigFloat:
		return drawBigFloat(t, label)
	}
	res := reflect.New(typ).Elem()
	switch k := typ.Kind(); k {
	case reflect.Float32, reflect.Float64:
		if s := rapid.IntRange(0, 39).Draw(t, label+".special"); s < 4 {
			res.SetFloat([]float64{math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1)}[s])
		} else {
			f := vt.DrawFloat64(t, label)
			if k == reflect.Float32 {
				f = float64(float32(f))
			}
			res.SetFloat(f)
		}
	default:
		lo, hi := vt.Bounds(k)
		b := vt.DrawBigIn(t, lo, hi, label)
		if res.CanInt() {
			res.SetInt(b.Int64())
		} else {
			res.SetUint(b.Uint64())
		}
	}
	return res.Interface()
}

// DrawInteger draws an integer: near the bounds of some integer type, with a few significant bits, or any up to 200 bits.
func DrawInteger(t *rapid.T, label string) *big.Int {
	switch rapid.IntRange(0, 12).Draw(t, label+".bigshape") {
	case 12: // around the largest float64
		b := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{970, 971, 1023, 1024, 1024, 1025}).Draw(t, label+".width")))
		if rapid.Bool().Draw(t, label+".more") {
			b.Sub(b, new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{0, 960, 969, 970, 971, 972}).Draw(t, label+".less"))))
		}
		if rapid.Bool().Draw(t, label+".neg") {
			b.Neg(b)
		}
		return b
	case 0, 1, 2: // around the bounds of a type
		b := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 128}).Draw(t, label+".width")))
		b.Add(b, big.NewInt(rapid.Int64Range(-3, 3).Draw(t, label+".off")))
		if rapid.Bool().Draw(t, label+".neg") {
			b.Neg(b)
		}
		return b
	case 3, 4, 5: // a significand around the size of that of a float, shifted
		b := big.NewInt(rapid.Int64Range(-1<<54, 1<<54).Draw(t, label+".significand"))
		b.Rsh(b, uint(rapid.IntRange(0, 54).Draw(t, label+".drop")))
		return b.Lsh(b, uint(rapid.IntRange(0, 130).Draw(t, label+".shift")))
	case 6, 7, 8:
		return big.NewInt(rapid.Int64().Draw(t, label+".int64"))
	}
	return vt.DrawBig(t, 200, label)
}

// drawExp draws a negative power of two, such that floats with it may be subnormal, underflow or neither
func drawExp(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{0, 0, 0, 0, 0, 120, 1000, 1060}).Draw(t, label+".exp0") + rapid.IntRange(0, 60).Draw(t, label+".exp1")
}

func drawRat(t *rapid.T, label string) *big.Rat {
	switch rapid.IntRange(0, 4).Draw(t, label+".ratshape") {
	case 0, 1: // an integer
		return new(big.Rat).SetInt(DrawInteger(t, label))
	case 2: // a power of two as the denominator
		return new(big.Rat).SetFrac(DrawInteger(t, label), new(big.Int).Lsh(big.NewInt(1), uint(drawExp(t, label))))
	case 3: // a decimal
		return new(big.Rat).SetFrac(vt.DrawBig(t, 80, label), vt.Pow10(rapid.UintRange(0, 70).Draw(t, label+".den10")))
	}
	d := vt.DrawBig(t, 80, label+".den")
	if d.Sign() == 0 {
		d.SetInt64(3)
	}
	return new(big.Rat).SetFrac(vt.DrawBig(t, 80, label), d)
}

func drawBigFloat(t *rapid.T, label string) *big.Float {
	switch s := rapid.IntRange(0, 19).Draw(t, label+".bfshape"); s {
	case 0:
		return new(big.Float).SetInf(false)
	case 1:
		return new(big.Float).SetInf(true)
	case 2:
		if rapid.Bool().Draw(t, label+".zero value") {
			return new(big.Float) // has no precision
		}
		return new(big.Float).Neg(new(big.Float))
	case 3, 4, 5, 6, 7:
		return big.NewFloat(vt.DrawFloat64(t, label))
	case 8, 9, 10, 11, 12:
		return new(big.Float).SetInt(DrawInteger(t, label))
	}
	f := new(big.Float).SetPrec(uint(rapid.IntRange(1, 200).Draw(t, label+".prec")))
	f.SetMode(big.RoundingMode(rapid.IntRange(0, int(big.ToPositiveInf)).Draw(t, label+".mode")))
	f.SetInt(DrawInteger(t, label))
	return f.SetMantExp(f, -drawExp(t, label)+rapid.SampledFrom([]int{0, 0, 120}).Draw(t, label+".exp"))
}

// Make is the value of the type equal to n, which has to be representable.
func Make(n Num, typ reflect.Type) any {
	inf := map[Kind]float64{PInf: math.Inf(1), NInf: math.Inf(-1), NaN: math.NaN()}
	switch typ {
	case bigInt:
		return new(big.Int).Set(n.R.Num())
	case bigRat:
		return new(big.Rat).Set(n.R)
	case bigFloat:
		if n.K != Finite {
			return new(big.Float).SetInf(n.K == NInf)
		}
		prec := max(1, n.R.Num().BitLen())
		return new(big.Float).SetPrec(uint(prec)).SetRat(n.R)
	}
	res := reflect.New(typ).Elem()
	switch {
	case res.CanFloat():
		f := inf[n.K]
		if n.K == Finite {
			f, _ = n.R.Float64()
		}
		res.SetFloat(f)
	case res.CanInt():
		res.SetInt(n.R.Num().Int64())
	default:
		res.SetUint(n.R.Num().Uint64())
	}
	return res.Interface()
}

// Some of the named types have methods, which do not matter to a conversion. Their texts still tell values apart.

func (m MyInt64) String() string { return fmt.Sprintf("%d units", int64(m)) }

func (m MyF64) String() string { return fmt.Sprintf("1%v", float64(m)) }

func (m MyU16) Error() string { return fmt.Sprintf("1%d", uint16(m)) }

func (m MyInt) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("1%d", int(m))), nil }

func (*MyInt) UnmarshalText([]byte) error { return nil }

func (m MyF32) Int64() int64 { return int64(m) + 1 }

func (m MyF32) Float64() float64 { return float64(m) + 1 }

func (m MyUint) GoString() string { return fmt.Sprintf("1%d", uint(m)) }

func (m MyUint) Cmp(o MyUint) int { return vt.Compare(o, m) }

func (m MyInt8) Format(s fmt.State, verb rune) { fmt.Fprintf(s, "1%d", int8(m)) }
