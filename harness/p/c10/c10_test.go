package c10

import (
	"math/big"
	"reflect"
	"testing"

	mm "github.com/bantling/micro/math"
	"verif/harness/vt"
)

func operand(c *vt.C, label string) (mm.Decimal, vt.Dec, bool) {
	d := vt.DrawDec(c.T, label)
	norm := c.Bool(label + ".normalized")
	if norm && c.Range(0, 3, label+".parsed") == 0 {
		// a number that was parsed has all the decimals it was written with, also a zero
		if c.Range(0, 3, label+".zero") == 0 {
			d.Val = 0
		}
		if p, err := mm.StringToDecimal(d.String()); err == nil {
			return p, d, norm
		}
	}
	if norm || d.Val == 0 {
		d = d.Normal()
	}
	return mm.MustDecimal(d.Val, d.Scale, norm), d, norm
}

func rat(d mm.Decimal) *big.Rat {
	r, _ := new(big.Rat).SetString(d.String())
	return r
}

func TestDiv(t *testing.T) {
	vt.Check(t, 150000, "two decimals of any value and scale, a fifth with small values, a fifth with a quotient that ends; non-trivial: the quotient does not end within "+
		"18 digits, or the division fails", func(c *vt.C) {
		x, a, an := operand(c, "a")
		y, b, bn := operand(c, "b")
		switch c.Range(0, 4, "shape") {
		case 0:
			a.Val, b.Val = int64(c.Range(-999, 999, "small.a")), int64(c.Range(-999, 999, "small.b"))
			if a.Val == 0 || an {
				a = a.Normal()
			}
			if b.Val == 0 || bn {
				b = b.Normal()
			}
			x, y = mm.MustDecimal(a.Val, a.Scale, an), mm.MustDecimal(b.Val, b.Scale, bn)
		case 1:
			if p := new(big.Int).Mul(big.NewInt(int64(c.Range(-99999, 99999, "multiple"))), big.NewInt(b.Val)); p.CmpAbs(big.NewInt(vt.MaxDec)) <= 0 {
				a.Val = p.Int64()
				if a.Val == 0 || an {
					a = a.Normal()
				}
				x = mm.MustDecimal(a.Val, a.Scale, an)
			}
		}
		div(c, x, a, an, y, b)
	})
}

// every pair of small decimals, every small number of shares
func TestAllPairs(t *testing.T) {
	vt.All(t, 1000000, "every pair of decimals of unscaled values of -100 to 100 and scales 0 to 2 and 0 or 1, both normalized or not; non-trivial as in TestDiv", func(c *vt.C) {
		an := c.Bool("normalized")
		a, b := c.SmallDec(100, 2, "a"), c.SmallDec(100, 1, "b")
		if an || a.Val == 0 {
			a = a.Normal()
		}
		if an || b.Val == 0 {
			b = b.Normal()
		}
		div(c, mm.MustDecimal(a.Val, a.Scale, an), a, an, mm.MustDecimal(b.Val, b.Scale, an), b)
	})
}

func TestAllEdges(t *testing.T) {
	as, bs := vt.EdgeDecs(1), vt.EdgeDecs(1, -1)
	vt.All(t, 1000000, "every pair of decimals of unscaled values next to powers of ten and halves of them and scales 0, 1, 8, 9, 17, 18, the second of either sign, both normalized or not; non-trivial as in TestDiv", func(c *vt.C) {
		an := c.Bool("normalized")
		a, b := as[c.Range(0, len(as)-1, "a")], bs[c.Range(0, len(bs)-1, "b")]
		if an || a.Val == 0 {
			a = a.Normal()
		}
		if an || b.Val == 0 {
			b = b.Normal()
		}
		div(c, mm.MustDecimal(a.Val, a.Scale, an), a, an, mm.MustDecimal(b.Val, b.Scale, an), b)
	})
}

func TestAllShareEdges(t *testing.T) {
	as := vt.EdgeDecs(1, -1)
	var os []uint
	for _, o := range vt.Edges[uint]() {
		if o > 1 {
			os = append(os, o)
		}
	}
	vt.All(t, 1000000, "every decimal of an unscaled value next to a power of ten or half of one and scale 0, 1, 8, 9, 17, 18, normalized or not, and every divisor next to a power of two; non-trivial as in TestDivInt", func(c *vt.C) {
		an := c.Bool("normalized")
		a := as[c.Range(0, len(as)-1, "a")]
		if an || a.Val == 0 {
			a = a.Normal()
		}
		divInt(c, mm.MustDecimal(a.Val, a.Scale, an), a, an, os[c.Range(0, len(os)-1, "divisor")], 40)
	})
}

func TestAllShares(t *testing.T) {
	vt.All(t, 1000000, "every decimal of an unscaled value of -150 to 150 and scale up to 2, normalized or not, and every divisor up to 30; non-trivial as in TestDivInt", func(c *vt.C) {
		an := c.Bool("normalized")
		a := c.SmallDec(150, 2, "a")
		if an || a.Val == 0 {
			a = a.Normal()
		}
		divInt(c, mm.MustDecimal(a.Val, a.Scale, an), a, an, uint(c.Range(0, 30, "divisor")), 3000)
	})
}

func div(c *vt.C, x mm.Decimal, a vt.Dec, an bool, y mm.Decimal, b vt.Dec) {
	x0, y0 := x, y
	got, err := x.Div(y)
	if x != x0 || y != y0 {
		c.Fatalf("the operands %v and %v became %v and %v", x0, y0, x, y)
	}
	var m mm.Decimal
	if _, p := vt.Panics(func() { m = x.MustDiv(y) }); p != (err != nil) || (!p && m != got) {
		c.Fatalf("MustDiv differs for %v and %v", x, y)
	}
	if b.Val == 0 {
		if err == nil {
			c.Fatalf("%v / 0 is %v", x, got)
		}
		c.Class("zero divisor")
		return
	}
	exact := new(big.Rat).Quo(a.Rat(), b.Rat())
	want, ok := vt.BestDec(exact, 18)
	if err != nil {
		// documented: the quotient is too large, or the divisor is too large to generate more digits
		if ok && b.Val <= 100_000_000_000_000_000 && b.Val >= -100_000_000_000_000_000 {
			c.Fatalf("%v / %v: want %v, got error %v", x, y, want, err)
		}
		if ok {
			c.Class("large divisor")
		} else {
			c.Class("overflow")
		}
		c.NonTrivial("%v / %v", x, y)
		return
	}
	if !ok {
		c.Fatalf("%v / %v = %v: overflows, got %v", x, y, exact.FloatString(20), got)
	}
	if g := rat(got); g == nil || g.Cmp(want.Rat()) != 0 || got.Scale() > 18 || got.Normalized() != an {
		c.Fatalf("%v / %v: want %v, got %v scale %d normalized %v", x, y, want, got, got.Scale(), got.Normalized())
	}
	if an && got.Scale() != want.Normal().Scale {
		c.Fatalf("%v / %v is not normalized: %v", x, y, got)
	}
	if want.Rat().Cmp(exact) != 0 {
		c.Class("rounded")
		c.NonTrivial("%v / %v", x, y)
	}
}

func TestDivInt(t *testing.T) {
	vt.Check(t, 60000, "a decimal and an unsigned divisor up to its integer part, beyond it, zero, or beyond 2^63; non-trivial: the remainder is not 0", func(c *vt.C) {
		x, a, an := operand(c, "a")
		ip := new(big.Int).Quo(new(big.Int).Abs(big.NewInt(a.Val)), vt.Pow10(a.Scale))
		var o uint
		switch c.Range(0, 7, "kind") {
		case 0:
			o = uint(vt.DrawInt[uint64](c.T, "any"))
		case 1:
			o = uint(new(big.Int).Add(ip, big.NewInt(int64(c.Range(0, 1, "over")))).Uint64())
		default:
			o = uint(c.Range(1, 1000, "small"))
			if new(big.Int).SetUint64(uint64(o)).Cmp(ip) > 0 && ip.Sign() > 0 {
				o = uint(vt.DrawBigIn(c.T, big.NewInt(1), ip, "o").Uint64())
			}
		}
		divInt(c, x, a, an, o, 3000)
	})
}

// TestManyShares: more values than in TestDivInt
func TestManyShares(t *testing.T) {
	vt.Check(t, 60, "a decimal and a divisor up to 10000, or once in a while 140000, and no more than its integer part; non-trivial: the remainder is not 0", func(c *vt.C) {
		o := uint(c.SizeOr(10000, 140000, "o") + 1)
		scale := c.Range(0, 12, "scale")
		lo := new(big.Int).Mul(new(big.Int).SetUint64(uint64(o)), vt.Pow10(uint(scale)))
		val := vt.DrawBigIn(c.T, lo, vt.Pow10(18), "value").Int64()
		if val == 1e18 {
			val--
		}
		if c.Bool("negative") {
			val = -val
		}
		an := c.Bool("normalized")
		d := vt.Dec{Val: val, Scale: uint(scale)}
		if an {
			d = d.Normal()
		}
		divInt(c, mm.MustDecimal(d.Val, d.Scale, an), d, an, o, 140010)
	})
}

// divInt checks a quotient, and the shares if there are up to most
func divInt(c *vt.C, x mm.Decimal, a vt.Dec, an bool, o, most uint) {
	ip := new(big.Int).Quo(new(big.Int).Abs(big.NewInt(a.Val)), vt.Pow10(a.Scale))
	x0 := x
	q, r, err := x.DivIntQuoRem(o)
	if x != x0 {
		c.Fatalf("the operand %v became %v", x0, x)
	}
	valid := o != 0 && new(big.Int).SetUint64(uint64(o)).Cmp(ip) <= 0
	if valid != (err == nil) {
		c.Fatalf("%v / %d: error %v", x, o, err)
	}
	var mq, mr mm.Decimal
	if _, p := vt.Panics(func() { mq, mr = x.MustDivIntQuoRem(o) }); p == valid || (valid && (mq != q || mr != r)) {
		c.Fatalf("MustDivIntQuoRem differs for %v and %d", x, o)
	}
	if !valid {
		c.Class("rejected")
		if o < 1000 {
			if parts, err := x.DivIntAdd(o); err == nil {
				c.Fatalf("DivIntAdd(%v, %d) is %v", x, o, parts)
			}
			if _, p := vt.Panics(func() { x.MustDivIntAdd(o) }); !p {
				c.Fatalf("MustDivIntAdd(%v, %d) does not panic", x, o)
			}
		}
		return
	}
	ob := new(big.Int).SetUint64(uint64(o))
	wq := new(big.Int).Quo(big.NewInt(a.Val), ob)
	wr := new(big.Int).Rem(big.NewInt(a.Val), ob)
	if rat(q).Cmp(vt.Dec{Val: wq.Int64(), Scale: a.Scale}.Rat()) != 0 || rat(r).Cmp(vt.Dec{Val: wr.Int64(), Scale: a.Scale}.Rat()) != 0 || q.Scale() > a.Scale || r.Scale() > a.Scale {
		c.Fatalf("%v / %d: got %v remainder %v", x, o, q, r)
	}
	if q.Normalized() != an || r.Normalized() != an {
		c.Fatalf("%v / %d: got %v remainder %v, normalized %v and %v", x, o, q, r, q.Normalized(), r.Normalized())
	}
	if wr.Sign() != 0 {
		c.NonTrivial("%v / %d", x, o)
	}
	if o > most {
		return
	}
	parts, err := x.DivIntAdd(o)
	if err != nil || len(parts) != int(o) {
		c.Fatalf("DivIntAdd(%v, %d) has %d values and error %v", x, o, len(parts), err)
	}
	var must []mm.Decimal
	if _, p := vt.Panics(func() { must = x.MustDivIntAdd(o) }); p || !reflect.DeepEqual(must, parts) {
		c.Fatalf("MustDivIntAdd(%v, %d) differs: %v, panics %v", x, o, must, p)
	}
	sum := new(big.Rat)
	unit := vt.Dec{Val: 1, Scale: a.Scale}.Rat()
	if a.Val < 0 {
		unit.Neg(unit)
	}
	larger := new(big.Rat).Add(rat(q), unit)
	for i, p := range parts {
		// the first values carry the remainder, one unit of the last place each
		want := rat(q)
		if big.NewInt(int64(i)).CmpAbs(wr) < 0 {
			want = larger
		}
		if rat(p).Cmp(want) != 0 || p.Normalized() != an {
			c.Fatalf("DivIntAdd(%v, %d): value %d is %v, not %v", x, o, i, p, want.FloatString(int(a.Scale)))
		}
		sum.Add(sum, rat(p))
	}
	if sum.Cmp(a.Rat()) != 0 {
		c.Fatalf("DivIntAdd(%v, %d) adds up to %v", x, o, sum.FloatString(18))
	}
}
