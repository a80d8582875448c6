package c08

import (
	"math"
	"math/big"
	"regexp"
	"strings"
	"testing"

	mm "github.com/bantling/micro/math"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// read reads a decimal through its exported methods only
func read(d mm.Decimal) *big.Rat {
	r, ok := new(big.Rat).SetString(d.String())
	if !ok {
		return nil
	}
	return r
}

func check(c *vt.C, what string, got mm.Decimal, want vt.Dec, normalized bool) {
	if got.String() != want.String() || got.Scale() != want.Scale || got.Normalized() != normalized {
		c.Fatalf("%s: want %v scale %d normalized %v, got %v scale %d normalized %v", what, want, want.Scale, normalized, got, got.Scale(), got.Normalized())
	}
	sgn := 0
	if want.Val < 0 {
		sgn = -1
	} else if want.Val > 0 {
		sgn = 1
	}
	if got.Sign() != sgn {
		c.Fatalf("%s: sign of %v is %d", what, want, got.Sign())
	}
	if p := len(strings.NewReplacer("-", "", ".", "").Replace(want.String())); got.Precision() != p {
		c.Fatalf("%s: precision of %v is %d, not %d", what, want, got.Precision(), p)
	}
	if lt := new(big.Rat).Abs(want.Rat()).Cmp(big.NewRat(1, 1)) < 0; got.MagnitudeLessThanOne() != lt {
		c.Fatalf("%s: magnitude of %v less than one is %v", what, want, got.MagnitudeLessThanOne())
	}
}

func TestConstruct(t *testing.T) {
	vt.Check(t, 40000, "unscaled value and scale, in and out of the limits of 18 digits and scale 18, normalized or not; non-trivial: valid with a fraction or "+
		"outside the limits", func(c *vt.C) {
		d := vt.DrawDec(c.T, "d")
		if c.Range(0, 5, "outside") == 0 {
			if c.Bool("scale") {
				d.Scale = uint(c.Range(17, 22, "scale"))
			} else {
				d.Val = vt.DrawBigIn(c.T, big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64), "value").Int64()
				if c.Bool("edge") {
					d.Val = []int64{vt.MaxDec, vt.MaxDec + 1, -vt.MaxDec, -vt.MaxDec - 1, math.MaxInt64, math.MinInt64}[c.Range(0, 5, "which")]
				}
			}
		}
		mode := c.Range(0, 2, "mode")
		args := [][]bool{nil, {true}, {false}}[mode]
		got, err := mm.OfDecimal(d.Val, d.Scale, args...)
		_, panicked := vt.Panics(func() { mm.MustDecimal(d.Val, d.Scale, args...) })
		valid := d.Scale <= 18 && d.Val <= vt.MaxDec && d.Val >= -vt.MaxDec
		if (err == nil) != valid || panicked == valid {
			c.Fatalf("OfDecimal(%d, %d): error %v, panic %v", d.Val, d.Scale, err, panicked)
		}
		if !valid {
			c.NonTrivial("%d %d", d.Val, d.Scale)
			return
		}
		want := d
		if mode != 2 || d.Val == 0 {
			want = d.Normal()
		}
		check(c, "OfDecimal", got, want, mode != 2)
		// Normalize applies whether or not operations do
		n := got
		n.Normalize()
		check(c, "Normalize", n, d.Normal(), mode != 2)
		neg := want
		neg.Val = -neg.Val
		check(c, "Negate", got.Negate(), neg, mode != 2)
		check(c, "the operand of Negate", got, want, mode != 2)
		if d.Scale > 0 && d.Val != 0 {
			c.NonTrivial("%d %d %d", d.Val, d.Scale, mode)
		}
	})
}

var decRegex = regexp.MustCompile(`^-?[0-9]*(\.[0-9]*)?$`)

func TestParse(t *testing.T) {
	junk := rapid.OneOf(rapid.StringMatching(`-?[0-9]{0,19}\.?[0-9]{0,19}`), rapid.StringMatching(`[-+0-9.eE_ x]{0,8}`), rapid.String())
	vt.Check(t, 60000, "the text of a decimal, such a text with leading or trailing zeros or one character inserted, removed or replaced, other strings of digits, "+
		"signs and points, any string; non-trivial: a valid text with a fraction, or a text with digits that is not valid", func(c *vt.C) {
		var s string
		switch c.Range(0, 3, "kind") {
		case 0:
			s = vt.DrawDec(c.T, "d").String()
		case 1:
			s = vt.DrawDec(c.T, "d").String()
			if c.Bool("mutate") {
				i := c.Range(0, len(s), "at")
				x := rapid.SampledFrom([]string{"", "0", "9", ".", "-", "+", " ", "x", "\n", "_", "e", "٣"}).Draw(c.T, "ins")
				j := i
				if c.Bool("replace") && i < len(s) {
					j++
				}
				s = s[:i] + x + s[j:]
			} else if strings.Contains(s, ".") {
				s += strings.Repeat("0", c.Range(0, 3, "zeros"))
			}
		case 2:
			// no integer digits, or no fraction digits
			d := vt.DrawDec(c.T, "d")
			s = d.String()
			if strings.HasPrefix(strings.TrimPrefix(s, "-"), "0.") {
				s = strings.Replace(s, "0.", ".", 1)
			} else if d.Scale == 0 {
				s += "."
			}
		default:
			s = junk.Draw(c.T, "s")
		}
		parse(c, s)
	})
}

// every short string
func TestAllShort(t *testing.T) {
	vt.All(t, 1000000, "every string of up to 8 of the characters -.059 and of up to 5 of -+.019eE_x, quote and blank; non-trivial as in TestParse", func(c *vt.C) {
		if c.Bool("longer") {
			parse(c, c.Seq(8, "-", ".", "0", "5", "9"))
		} else {
			parse(c, c.Seq(5, "-", "+", ".", "0", "1", "9", "e", "E", "_", "x", " ", "'"))
		}
	})
}

func parse(c *vt.C, s string) {
	got, err := mm.StringToDecimal(s)
	if _, panicked := vt.Panics(func() { mm.MustStringToDecimal(s) }); panicked != (err != nil) {
		c.Fatalf("MustStringToDecimal(%q) panics: %v, error %v", s, panicked, err)
	}
	digits := strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return r
		}
		return -1
	}, s)
	if !decRegex.MatchString(s) {
		if err == nil {
			c.Fatalf("StringToDecimal(%q) is not valid, got %v", s, got)
		}
		if digits != "" {
			c.NonTrivial("invalid %q", s)
		}
		return
	}
	if digits == "" {
		c.Class("no digits") // what they mean is not specified
		if s == "" && err == nil {
			c.Fatalf("the empty string is not valid, got %v", got)
		}
		return
	}
	if len(strings.TrimLeft(digits, "0")) > 18 {
		if err == nil {
			c.Fatalf("StringToDecimal(%q) has more than 18 digits, got %v", s, got)
		}
		c.NonTrivial("too long %q", s)
		return
	}
	if len(digits) > 18 && err != nil {
		c.Class("leading zeros beyond 18 digits")
		return
	}
	if err != nil {
		c.Fatalf("StringToDecimal(%q): %v", s, err)
	}
	want, _ := new(big.Rat).SetString(canon(s))
	if g := read(got); g == nil || g.Cmp(want) != 0 {
		c.Fatalf("StringToDecimal(%q) is %v", s, got)
	}
	_, frac, _ := strings.Cut(s, ".")
	if got.Scale() != uint(len(frac)) {
		c.Fatalf("StringToDecimal(%q) has scale %d", s, got.Scale())
	}
	// printing and parsing again changes nothing
	again, err := mm.StringToDecimal(got.String())
	if err == nil && again != got || err != nil && len(got.String()) < 19 {
		c.Fatalf("%q parses as %v, which parses as %v with error %v", s, got, again, err)
	}
	if frac != "" {
		c.NonTrivial("%q", s)
	}
}

// canon makes a text big.Rat reads
func canon(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	i, f, _ := strings.Cut(s, ".")
	s = "0" + i + "." + f + "0"
	if neg {
		s = "-" + s
	}
	return s
}

func TestRoundTrip(t *testing.T) {
	vt.Check(t, 40000, "decimals of any value and scale, printed and parsed; non-trivial: with a fraction", func(c *vt.C) {
		d := vt.DrawDec(c.T, "d")
		m := mm.MustDecimal(d.Val, d.Scale, c.Bool("normalized"))
		s := m.String()
		if len(strings.NewReplacer("-", "", ".", "").Replace(s)) > 18 {
			c.Class("scale 18, with a zero before the point") // 19 digits, which the parser documents it does not take
			return
		}
		p, err := mm.StringToDecimal(s)
		if err != nil || p.String() != s || p.Scale() != m.Scale() || p.Cmp(m) != 0 {
			c.Fatalf("%v parses as %v with error %v", s, p, err)
		}
		if d.Scale > 0 {
			c.NonTrivial("%s", s)
		}
	})
}

func TestCompare(t *testing.T) {
	vt.Check(t, 60000, "two decimals, half of them equal or differing by one in the last place at different scales; non-trivial: different scales", func(c *vt.C) {
		a := vt.DrawDec(c.T, "a")
		b := vt.DrawDec(c.T, "b")
		switch c.Range(0, 3, "relation") {
		case 0: // same value, other scale, maybe one off
			b = a
			if c.Bool("trim") {
				b = a.Normal()
			}
			for i := c.Range(0, 5, "widen"); i > 0 && b.Scale < 18 && b.Val <= vt.MaxDec/10 && b.Val >= -vt.MaxDec/10; i-- {
				b.Val *= 10
				b.Scale++
			}
			if b.Val < vt.MaxDec && b.Val > -vt.MaxDec {
				b.Val += int64(c.Range(-1, 1, "off"))
			}
		case 1:
			b.Val = -a.Val
			b.Scale = a.Scale
		}
		compare(c, a, b, c.Bool("an"), c.Bool("bn"))
	})
}

// every pair of small decimals
func TestAllPairs(t *testing.T) {
	vt.All(t, 1000000, "every pair of decimals of unscaled values of -99 to 99 and scales up to 3, not normalized; non-trivial: different scales", func(c *vt.C) {
		compare(c, c.SmallDec(99, 3, "a"), c.SmallDec(99, 3, "b"), false, false)
	})
}

func TestAllEdges(t *testing.T) {
	as, bs := vt.EdgeDecs(1, -1), vt.EdgeDecs(1, -1)
	vt.All(t, 1000000, "every pair of decimals of unscaled values next to powers of ten and halves of them and scales 0, 1, 8, 9, 17, 18, not normalized; non-trivial: different scales", func(c *vt.C) {
		compare(c, as[c.Range(0, len(as)-1, "a")], bs[c.Range(0, len(bs)-1, "b")], false, false)
	})
}

func compare(c *vt.C, a, b vt.Dec, an, bn bool) {
	x, y := mm.MustDecimal(a.Val, a.Scale, an), mm.MustDecimal(b.Val, b.Scale, bn)
	want := a.Rat().Cmp(b.Rat())
	if g, h := x.Cmp(y), y.Cmp(x); g != want || h != -want {
		c.Fatalf("%v compared with %v is %d, the other way %d", x, y, g, h)
	}
	// the aligned texts
	s1, s2 := mm.AdjustDecimalFormat(x, y)
	w1, w2 := formats(x.String(), y.String())
	if s1 != w1 || s2 != w2 {
		c.Fatalf("AdjustDecimalFormat(%v, %v) is %q and %q", x, y, s1, s2)
	}
	if x.Scale() != y.Scale() {
		c.NonTrivial("%v %v", x, y)
	}
}

func formats(a, b string) (string, string) {
	split := func(s string) (sg, i, f string) {
		sg = " "
		if s[0] == '-' {
			sg, s = "-", s[1:]
		}
		i, f, _ = strings.Cut(s, ".")
		return
	}
	s1, i1, f1 := split(a)
	s2, i2, f2 := split(b)
	for len(i1) < len(i2) {
		i1 = "0" + i1
	}
	for len(i2) < len(i1) {
		i2 = "0" + i2
	}
	for len(f1) < len(f2) {
		f1 += "0"
	}
	for len(f2) < len(f1) {
		f2 += "0"
	}
	if f1 != "" {
		f1, f2 = "."+f1, "."+f2
	}
	return s1 + i1 + f1, s2 + i2 + f2
}
