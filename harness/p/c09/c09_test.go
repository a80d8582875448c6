package c09

import (
	"fmt"
	"math/big"
	"testing"

	mm "github.com/bantling/micro/math"
	"verif/harness/vt"
)

// operand draws a decimal, and its model as it is after construction
func operand(c *vt.C, label string) (mm.Decimal, vt.Dec, bool) {
	d := vt.DrawDec(c.T, label)
	norm := c.Bool(label + ".normalized")
	if norm && c.Range(0, 3, label+".parsed") == 0 {
		// a number that was parsed has all the decimals it was written with, also a zero
		if c.Range(0, 3, label+".zero") == 0 {
			d.Val = 0
		}
		if p, err := mm.StringToDecimal(d.String()); err == nil {
			return p, d, norm
		}
	}
	if norm || d.Val == 0 {
		d = d.Normal()
	}
	return mm.MustDecimal(d.Val, d.Scale, norm), d, norm
}

// pair draws two operands, often with a big difference in size, so that aligning them has to round
func pair(c *vt.C) (x mm.Decimal, a vt.Dec, an bool, y mm.Decimal, b vt.Dec) {
	x, a, an = operand(c, "a")
	y, b, _ = operand(c, "b")
	if c.Range(0, 2, "rounding pair") == 0 {
		// one with 17 or 18 digits and a small scale, the other with a larger one
		lo := vt.Pow10(uint(c.Range(15, 17, "digits")))
		hi := new(big.Int).Mul(lo, big.NewInt(10))
		hi.Sub(hi, big.NewInt(1))
		a = vt.Dec{Val: vt.DrawBigIn(c.T, lo, hi, "wide").Int64(), Scale: uint(c.Range(0, 2, "wide.scale"))}
		if c.Bool("wide.neg") {
			a.Val = -a.Val
		}
		if an {
			a = a.Normal()
		}
		x = mm.MustDecimal(a.Val, a.Scale, an)
		if c.Bool("swap") {
			x, y, a, b = y, x, b, a
			an = x.Normalized()
		}
	}
	return
}

func digits(v int64) int {
	if v < 0 {
		v = -v
	}
	return len(fmt.Sprint(v))
}

type outcome int

const (
	exact outcome = iota
	rounded
	mayFail // documented: the number that is not rounded is too near the limit
)

// align is the model of bringing two decimals to the same scale
func align(a, b vt.Dec) (vt.Dec, vt.Dec, outcome) {
	if a.Scale == b.Scale {
		return a, b, exact
	}
	if a.Scale < b.Scale {
		y, x, o := align(b, a)
		return x, y, o
	}
	diff := a.Scale - b.Scale
	if b.Val == 0 || digits(b.Val)+int(diff) <= 18 {
		return a, vt.Dec{Val: new(big.Int).Mul(big.NewInt(b.Val), vt.Pow10(diff)).Int64(), Scale: a.Scale}, exact
	}
	o := rounded
	if b.Val > vt.MaxDec-5 || b.Val < -vt.MaxDec+5 {
		o = mayFail
	}
	return vt.Dec{Val: vt.RoundTo(a.Rat(), b.Scale).Int64(), Scale: b.Scale}, b, o
}

func TestAdjustScale(t *testing.T) {
	vt.Check(t, 50000, "two decimals of any value and scale, a third of the pairs with 16 to 18 digits on one side; non-trivial: scales differ", func(c *vt.C) {
		x, a, _, y, b := pair(c)
		x0, y0 := x, y
		err := mm.AdjustDecimalScale(&x, &y)
		xm, ym := x0, y0
		if _, p := vt.Panics(func() { mm.MustAdjustDecimalScale(&xm, &ym) }); p != (err != nil) || xm != x || ym != y {
			c.Fatalf("MustAdjustDecimalScale differs for %v and %v: %v and %v, panics %v; expected %v and %v, %v", x0, y0, xm, ym, p, x, y, err)
		}
		wa, wb, o := align(a, b)
		c.Class("outcome %d", o)
		if err != nil {
			if o != mayFail {
				c.Fatalf("aligning %v and %v: error %v", x0, y0, err)
			}
			if x != x0 || y != y0 {
				c.Fatalf("aligning %v and %v failed but changed them to %v and %v", x0, y0, x, y)
			}
			return
		}
		if x.String() != wa.String() || y.String() != wb.String() || x.Scale() != wa.Scale || y.Scale() != wb.Scale {
			c.Fatalf("aligning %v and %v: want %v and %v, got %v and %v", x0, y0, wa, wb, x, y)
		}
		if a.Scale != b.Scale {
			c.NonTrivial("%v %v", x0, y0)
		}
	})
}

func sum(c *vt.C, what string, x, y mm.Decimal, a, b vt.Dec, norm bool, got mm.Decimal, err error) {
	wa, wb, o := align(a, b)
	c.Class("outcome %d", o)
	s := wa.Val + wb.Val
	if s > vt.MaxDec || s < -vt.MaxDec {
		if err == nil {
			c.Fatalf("%s of %v and %v overflows, got %v", what, x, y, got)
		}
		c.Class("overflow")
		return
	}
	if err != nil {
		if o != mayFail {
			c.Fatalf("%s of %v and %v: error %v", what, x, y, err)
		}
		return
	}
	want := vt.Dec{Val: s, Scale: wa.Scale}
	if norm || s == 0 {
		want = want.Normal()
	}
	if got.String() != want.String() || got.Scale() != want.Scale || got.Normalized() != norm {
		c.Fatalf("%s of %v and %v: want %v, got %v (normalized %v)", what, x, y, want, got, got.Normalized())
	}
}

func TestAddSub(t *testing.T) {
	vt.Check(t, 80000, "two decimals of any value and scale, a third of the pairs with 16 to 18 digits on one side, one pair in six opposite but for the last "+
		"digits; non-trivial: both differ from 0", func(c *vt.C) {
		x, a, an, y, b := pair(c)
		if c.Range(0, 5, "near") == 0 {
			b = a
			if v := a.Val + int64(c.Range(-2, 2, "off")); v <= vt.MaxDec && v >= -vt.MaxDec {
				b.Val = v
			}
			if c.Bool("opposite") {
				b.Val = -b.Val
			}
			b = b.Normal()
			y = mm.MustDecimal(b.Val, b.Scale)
		}
		addSub(c, x, a, an, y, b)
	})
}

// every pair of small decimals
func TestAllPairs(t *testing.T) {
	vt.All(t, 1000000, "every pair of decimals of unscaled values of -50 to 50 and scales 0 to 3 and 0 or 3, both normalized or not; non-trivial as in TestAddSub or TestMul", func(c *vt.C) {
		an := c.Bool("normalized")
		a, b := c.SmallDec(50, 3, "a"), vt.Dec{Val: int64(c.Range(-50, 50, "b")), Scale: uint(3 * c.Range(0, 1, "b.scale"))}
		if an || a.Val == 0 {
			a = a.Normal()
		}
		if an || b.Val == 0 {
			b = b.Normal()
		}
		x, y := mm.MustDecimal(a.Val, a.Scale, an), mm.MustDecimal(b.Val, b.Scale, an)
		addSub(c, x, a, an, y, b)
		mul(c, x, a, an, y, b)
	})
}

func TestAllEdges(t *testing.T) {
	as, bs := vt.EdgeDecs(1, -1), vt.EdgeDecs(1)
	vt.All(t, 1000000, "every pair of decimals of unscaled values next to powers of ten and halves of them and scales 0, 1, 8, 9, 17, 18, the first of either sign, both normalized or not; non-trivial as in TestAddSub or TestMul", func(c *vt.C) {
		an := c.Bool("normalized")
		a, b := as[c.Range(0, len(as)-1, "a")], bs[c.Range(0, len(bs)-1, "b")]
		if an || a.Val == 0 {
			a = a.Normal()
		}
		if an || b.Val == 0 {
			b = b.Normal()
		}
		x, y := mm.MustDecimal(a.Val, a.Scale, an), mm.MustDecimal(b.Val, b.Scale, an)
		addSub(c, x, a, an, y, b)
		mul(c, x, a, an, y, b)
	})
}

func addSub(c *vt.C, x mm.Decimal, a vt.Dec, an bool, y mm.Decimal, b vt.Dec) {
	x0, y0 := x, y
	got, err := x.Add(y)
	sum(c, "sum", x, y, a, b, an, got, err)
	nb := b
	nb.Val = -nb.Val
	diff, err2 := x.Sub(y)
	sum(c, "difference", x, y, a, nb, an, diff, err2)
	if x != x0 || y != y0 {
		c.Fatalf("the operands %v and %v became %v and %v", x0, y0, x, y)
	}
	var m1, m2 mm.Decimal
	_, p1 := vt.Panics(func() { m1 = x.MustAdd(y) })
	_, p2 := vt.Panics(func() { m2 = x.MustSub(y) })
	if p1 != (err != nil) || p2 != (err2 != nil) || (!p1 && m1 != got) || (!p2 && m2 != diff) {
		c.Fatalf("the must versions differ for %v and %v", x, y)
	}
	if a.Val != 0 && b.Val != 0 {
		c.NonTrivial("%v %v", x, y)
	}
}

func TestMul(t *testing.T) {
	vt.Check(t, 100000, "two decimals of any value and scale, a third with products next to 18 or 19 digits; non-trivial: the product needs rounding or overflows", func(c *vt.C) {
		x, a, an, y, b := pair(c)
		if c.Range(0, 2, "near limit") == 0 && b.Val != 0 {
			// a = limit / b + off, with the limit 10^17, 10^18, 10^19 or 2^63
			lim := []*big.Int{vt.Pow10(17), vt.Pow10(18), vt.Pow10(19), new(big.Int).Lsh(big.NewInt(1), 63)}[c.Range(0, 3, "limit")]
			v := new(big.Int).Quo(lim, big.NewInt(b.Val))
			v.Add(v, big.NewInt(int64(c.Range(-1, 1, "off"))))
			if v.CmpAbs(big.NewInt(vt.MaxDec)) <= 0 {
				a.Val = v.Int64()
				if an || a.Val == 0 {
					a = a.Normal()
				}
				x = mm.MustDecimal(a.Val, a.Scale, an)
			}
		}
		mul(c, x, a, an, y, b)
	})
}

func mul(c *vt.C, x mm.Decimal, a vt.Dec, an bool, y mm.Decimal, b vt.Dec) {
	x0, y0 := x, y
	got, err := x.Mul(y)
	exact := new(big.Rat).Mul(a.Rat(), b.Rat())
	max := a.Scale + b.Scale
	if max > 18 {
		max = 18
	}
	want, ok := vt.BestDec(exact, max)
	if x != x0 || y != y0 {
		c.Fatalf("the operands %v and %v became %v and %v", x0, y0, x, y)
	}
	if ok != (err == nil) {
		c.Fatalf("%v * %v = %v: got %v with error %v", x, y, exact.FloatString(40), got, err)
	}
	var m mm.Decimal
	if _, p := vt.Panics(func() { m = x.MustMul(y) }); p != (err != nil) || (!p && m != got) {
		c.Fatalf("MustMul differs for %v and %v", x, y)
	}
	if !ok {
		c.Class("overflow")
		c.NonTrivial("%v * %v", x, y)
		return
	}
	if g, okg := new(big.Rat).SetString(got.String()); !okg || g.Cmp(want.Rat()) != 0 || got.Scale() > 18 || got.Normalized() != an {
		c.Fatalf("%v * %v: want %v, got %v scale %d normalized %v", x, y, want, got, got.Scale(), got.Normalized())
	}
	if an && got.Scale() != want.Normal().Scale {
		c.Fatalf("%v * %v is not normalized: %v", x, y, got)
	}
	if want.Rat().Cmp(exact) != 0 {
		c.Class("rounded")
		c.NonTrivial("%v * %v", x, y)
	}
}
