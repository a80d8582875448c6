package vt

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

// Dec is the reference model of an 18 digit decimal: Val / 10^Scale.
type Dec struct {
	Val   int64
	Scale uint
}

// MaxDec is the largest unscaled value of a decimal.
const MaxDec = 999_999_999_999_999_999

// Pow10 is 10^n.
func Pow10(n uint) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), new(big.Int).SetUint64(uint64(n)), nil)
}

// Rat is the exact value.
func (d Dec) Rat() *big.Rat { return new(big.Rat).SetFrac(big.NewInt(d.Val), Pow10(d.Scale)) }

// Normal has no trailing zeros after the decimal point.
func (d Dec) Normal() Dec {
	for d.Scale > 0 && d.Val%10 == 0 {
		d.Val /= 10
		d.Scale--
	}
	return d
}

// String is the text: sign, at least one integer digit, and exactly Scale digits after the point.
func (d Dec) String() string {
	digits := strings.TrimPrefix(fmt.Sprint(d.Val), "-")
	if n := int(d.Scale) + 1 - len(digits); n > 0 {
		digits = strings.Repeat("0", n) + digits
	}
	s := digits[:len(digits)-int(d.Scale)]
	if d.Scale > 0 {
		s += "." + digits[len(digits)-int(d.Scale):]
	}
	if d.Val < 0 {
		s = "-" + s
	}
	return s
}

// RoundTo is r * 10^scale rounded to an integer, halves away from zero.
func RoundTo(r *big.Rat, scale uint) *big.Int {
	n := new(big.Int).Mul(r.Num(), Pow10(scale))
	n.Abs(n)
	d := new(big.Int).Set(r.Denom())
	n.Lsh(n, 1).Add(n, d)
	d.Lsh(d, 1)
	n.Div(n, d)
	if r.Sign() < 0 {
		n.Neg(n)
	}
	return n
}

// BestDec is r rounded at the largest scale up to max at which it has at most 18 digits; ok is false if there is none.
func BestDec(r *big.Rat, max uint) (d Dec, ok bool) {
	for s := int(max); s >= 0; s-- {
		if n := RoundTo(r, uint(s)); n.CmpAbs(big.NewInt(MaxDec)) <= 0 {
			return Dec{n.Int64(), uint(s)}, true
		}
	}
	return Dec{}, false
}

// DrawDec draws a decimal: values near the limits and powers of ten, runs of nines, small values; any scale.
func DrawDec(t *rapid.T, label string) Dec {
	lo, hi := big.NewInt(-MaxDec), big.NewInt(MaxDec)
	var v int64
	switch rapid.IntRange(0, 3).Draw(t, label+".kind") {
	case 0: // a few significant digits followed by zeros, or nines
		n := rapid.Int64Range(0, 9999).Draw(t, label+".lead")
		k := rapid.IntRange(0, 14).Draw(t, label+".trail")
		nines := rapid.Bool().Draw(t, label+".nines")
		for i := 0; i < k; i++ {
			n *= 10
			if nines {
				n += 9
			}
		}
		v = n
		if rapid.Bool().Draw(t, label+".neg") {
			v = -v
		}
	case 1: // exactly n digits
		n := uint(rapid.IntRange(1, 18).Draw(t, label+".digits"))
		v = DrawBigIn(t, Pow10(n-1), new(big.Int).Sub(Pow10(n), big.NewInt(1)), label+".value").Int64()
		if rapid.Bool().Draw(t, label+".neg") {
			v = -v
		}
	default:
		v = DrawBigIn(t, lo, hi, label+".value").Int64()
	}
	var s uint
	switch rapid.IntRange(0, 3).Draw(t, label+".scalekind") {
	case 0:
		s = 0
	case 1:
		s = uint(rapid.IntRange(0, 4).Draw(t, label+".scale"))
	default:
		s = uint(rapid.IntRange(0, 18).Draw(t, label+".scale"))
	}
	return Dec{v, s}
}
