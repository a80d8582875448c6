package c04

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"pgregory.net/rapid"
	"verif/harness/convx"
	"verif/harness/vt"
)

// num to string by every function that can do it
func strs[T constraint.Numeric](v T, direct func(T) string) map[string]string {
	var to, anyTo, must, refl string
	res := map[string]string{}
	if conv.To(v, &to) == nil {
		res["To"] = to
	}
	if conv.AnyTo(v, &anyTo) == nil {
		res["AnyTo"] = anyTo
	}
	if conv.ReflectTo(reflect.ValueOf(v), reflect.ValueOf(&refl)) == nil {
		res["ReflectTo"] = refl
	}
	conv.MustTo(v, &must)
	res["MustTo"] = must
	if direct != nil {
		res["direct"] = direct(v)
	}
	return res
}

// roundTrip: all strings are the same, and come back as the same value through every function
func roundTrip[T constraint.Numeric](c *vt.C, v T, direct func(T) string, back func(string, *T) error) {
	n, _ := convx.Of(v)
	var str string
	for i, k := range vt.SortedKeys(strs(v, direct)) {
		s := strs(v, direct)[k]
		if i > 0 && s != str {
			c.Fatalf("%T %s: strings %q and %q (%s) differ", v, n, str, s, k)
		}
		str = s
	}
	if len(strs(v, direct)) < 4 {
		c.Fatalf("%T %s cannot be converted to a string", v, n)
	}
	want := n
	check := func(name string, got T, err error) {
		if err != nil {
			if n.K == convx.NaN && reflect.TypeOf(v).Kind() != reflect.Float64 && reflect.TypeOf(v).Kind() != reflect.Float32 {
				return
			}
			c.Fatalf("%T %s: %s of the string %q: %v", v, n, name, str, err)
		}
		if g, ok := convx.Of(got); !ok || !g.Same(want) {
			c.Fatalf("%T %s: the string is %q, and %s of it is %s", v, n, str, name, g)
		}
	}
	var a, b, d T
	check("To", a, func() (err error) { err = conv.To(str, &a); return }())
	err := conv.To(str, &a)
	check("To", a, err)
	err = conv.AnyTo(str, &b)
	check("AnyTo", b, err)
	if back != nil {
		err = back(str, &d)
		check("direct", d, err)
	}
	if len(str) > 3 {
		c.NonTrivial("%T %s", v, str)
	}
}

func signed[T constraint.SignedInteger](c *vt.C) {
	roundTrip(c, vt.DrawInt[T](c.T, "v"), conv.IntToString[T], nil)
}
func unsigned[T constraint.UnsignedInteger](c *vt.C) {
	roundTrip(c, vt.DrawInt[T](c.T, "v"), conv.UintToString[T], nil)
}

func TestIntegers(t *testing.T) {
	fs := []func(*vt.C){signed[int], signed[int8], signed[int16], signed[int32], unsigned[uint], unsigned[uint8], unsigned[uint16], unsigned[uint32],
		signed[convx.MyInt], signed[convx.MyInt8], signed[convx.MyInt64], unsigned[convx.MyUint], unsigned[convx.MyU16],
		func(c *vt.C) {
			roundTrip(c, vt.DrawInt[int64](c.T, "v"), conv.IntToString[int64], conv.StringToInt64)
		},
		func(c *vt.C) {
			roundTrip(c, vt.DrawInt[uint64](c.T, "v"), conv.UintToString[uint64], conv.StringToUint64)
		},
		func(c *vt.C) { roundTrip(c, convx.DrawInteger(c.T, "v"), conv.BigIntToString, conv.StringToBigInt) }}
	vt.Check(t, 30000, "an integer of any type to a string and back by every function; non-trivial: more than 3 characters", func(c *vt.C) {
		fs[c.Range(0, len(fs)-1, "type")](c)
	})
}

func TestFloats(t *testing.T) {
	vt.Check(t, 30000, "a float of any kind, also infinite, to a string and back to the same float; non-trivial: more than 3 characters", func(c *vt.C) {
		if c.Range(0, 4, "named") == 0 {
			v, w := convx.Draw(c.T, reflect.TypeOf(convx.MyF32(0)), "v").(convx.MyF32), convx.Draw(c.T, reflect.TypeOf(convx.MyF64(0)), "w").(convx.MyF64)
			if v == v && w == w {
				roundTrip(c, v, conv.FloatToString[convx.MyF32], nil)
				roundTrip(c, w, conv.FloatToString[convx.MyF64], nil)
			}
		} else if c.Bool("is32") {
			v := convx.Draw(c.T, reflect.TypeOf(float32(0)), "v").(float32)
			if s := conv.FloatToString(v); s == "-0" != (v == 0 && math.Signbit(float64(v))) {
				c.Fatalf("string of %v is %q", v, s)
			}
			if v != v { // NaN is not the same as itself
				var o float32
				if err := conv.StringToFloat32(conv.FloatToString(v), &o); err != nil || o == o {
					c.Fatalf("NaN comes back as %v, %v", o, err)
				}
				return
			}
			roundTrip(c, v, conv.FloatToString[float32], conv.StringToFloat32)
		} else {
			v := convx.Draw(c.T, reflect.TypeOf(float64(0)), "v").(float64)
			if v != v {
				var o float64
				if err := conv.StringToFloat64(conv.FloatToString(v), &o); err != nil || o == o {
					c.Fatalf("NaN comes back as %v, %v", o, err)
				}
				return
			}
			roundTrip(c, v, conv.FloatToString[float64], conv.StringToFloat64)
		}
	})
}

func TestRats(t *testing.T) {
	vt.Check(t, 20000, "a ratio to a string and back; its normalized string has the value of an integer exactly, of a decimal of up to 15 digits exactly, and of others to 52 bits; non-trivial: not an integer", func(c *vt.C) {
		v := convx.Draw(c.T, reflect.TypeOf((*big.Rat)(nil)), "v").(*big.Rat)
		if c.Bool("short") { // a decimal of at most 15 significant digits
			d := rapid.Int64Range(-999999999999999, 999999999999999).Draw(c.T, "digits")
			v = new(big.Rat).SetFrac(big.NewInt(d), vt.Pow10(uint(c.Range(0, 30, "scale"))))
			s := conv.BigRatToNormalizedString(v)
			if got, ok := new(big.Rat).SetString(s); !ok || got.Cmp(v) != 0 {
				c.Fatalf("normalized string of %s is %q", v, s)
			}
		}
		before := v.String()
		roundTrip(c, v, conv.BigRatToString, conv.StringToBigRat)
		s := conv.BigRatToNormalizedString(v)
		got, ok := new(big.Rat).SetString(s)
		if !ok || strings.Contains(s, "/") {
			c.Fatalf("normalized string of %s is %q", before, s)
		}
		if v.IsInt() {
			if s != v.Num().String() {
				c.Fatalf("normalized string of %s is %q", before, s)
			}
		} else {
			diff := new(big.Rat).Sub(got, v)
			diff.Abs(diff).Quo(diff, new(big.Rat).Abs(v))
			if diff.Cmp(big.NewRat(1, 1<<51)) > 0 {
				c.Fatalf("normalized string of %s is %q", before, s)
			}
			c.NonTrivial("%s", before)
		}
		if v.String() != before {
			c.Fatalf("conversion changed %s to %s", before, v)
		}
	})
}

func TestBigFloats(t *testing.T) {
	vt.Check(t, 20000, "a *big.Float to a string: parsed with the precision of the original it is the original; non-trivial: more than 10 digits", func(c *vt.C) {
		v := convx.Draw(c.T, reflect.TypeOf((*big.Float)(nil)), "v").(*big.Float)
		var s2 string
		s := conv.BigFloatToString(v)
		if err := conv.To(v, &s2); err != nil || s2 != s {
			c.Fatalf("strings of %v are %q and %q, %v", v, s, s2, err)
		}
		if v.IsInf() {
			if s != map[bool]string{false: "+Inf", true: "-Inf"}[v.Signbit()] {
				c.Fatalf("string of an infinity is %q", s)
			}
			return
		}
		// big.ParseFloat does not always round correctly
		exact, ok := new(big.Rat).SetString(s)
		if !ok || strings.HasPrefix(s, "-") != v.Signbit() {
			c.Fatalf("string of %s is %q", v.Text('g', 40), s)
		}
		if got := new(big.Float).SetPrec(max(1, v.Prec())).SetRat(exact); got.Cmp(v) != 0 {
			c.Fatalf("string of %s is %q", v.Text('g', 40), s)
		}
		var o *big.Float
		if err := conv.StringToBigFloat(s, &o); err != nil {
			c.Fatalf("string %q is not accepted: %v", s, err)
		}
		if len(s) > 11 {
			c.NonTrivial("%s", s)
		}
	})
}

var (
	ratioRe = regexp.MustCompile(`^([+-]?[0-9]+)/([0-9]+)$`)
	intRe   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	floatRe = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]{1,4})?$`)
)

func drawString(c *vt.C) string {
	var sb strings.Builder
	digits := func(lo, hi int, label string) {
		n := c.Range(lo, hi, label)
		if c.Range(0, 3, label+".long") == 0 {
			n += c.Range(0, 25, label+".more")
		}
		for i := 0; i < n; i++ {
			sb.WriteByte("0123456789"[c.Range(0, 9, label+".digit")])
		}
	}
	switch c.Range(0, 5, "strshape") {
	case 0: // around the bounds of a type
		return convx.DrawInteger(c.T, "int").String()
	case 1: // as printed by someone else
		f := vt.DrawFloat64(c.T, "float")
		return strconv.FormatFloat(f, "feEgG"[c.Range(0, 4, "verb")], c.Range(-1, 20, "prec"), []int{32, 64}[c.Range(0, 1, "bits")])
	case 2: // the exact decimal of a float
		f := new(big.Rat).SetFloat64(vt.DrawFloat64(c.T, "float"))
		s := f.FloatString(min(int(f.Denom().BitLen()), 400))
		return s
	}
	sb.WriteString([]string{"", "", "", "-", "+"}[c.Range(0, 4, "sign")])
	digits(0, 5, "whole")
	if c.Bool("point") {
		sb.WriteByte('.')
		digits(0, 5, "frac")
	}
	if c.Range(0, 3, "hasexp") == 0 {
		fmt.Fprintf(&sb, "e%d", c.Range(-60, 60, "exp"))
	}
	return sb.String()
}

// breakIt makes a string that is no number for any target
func breakIt(c *vt.C, s string) string {
	switch c.Range(0, 5, "break") {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return s + "x"
	case 3:
		return "--" + s
	case 4:
		return s + "." + s + "."
	}
	i := c.Range(0, len(s), "at")
	return s[:i] + string("zZ:,;#\x00é"[c.Range(0, 7, "char")]) + s[i:]
}

func ints[T constraint.Integer](c *vt.C, s string, direct func(string, *T) error) {
	unsigned := reflect.TypeOf(T(0)).Kind() >= reflect.Uint
	for i, f := range []func(string, *T) error{conv.To[string, T], func(s string, o *T) error { return conv.AnyTo(s, o) }, direct} {
		if f == nil {
			continue
		}
		var o T
		err := f(s, &o)
		b, _ := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
		ok := intRe.MatchString(s) && vt.InRange[T](b)
		switch {
		case err == nil && !ok:
			c.Fatalf("%q to %T (function %d) is %d", s, o, i, o)
		case err != nil && ok && !(unsigned && (s[0] == '+' || s[0] == '-')):
			c.Fatalf("%q to %T (function %d): %v", s, o, i, err)
		case err == nil && vt.Big(o).Cmp(b) != 0:
			c.Fatalf("%q to %T (function %d) is %d", s, o, i, o)
		}
	}
}

// canonical is true if the string has the same value as the shortest string of the float
func canonical(exact *big.Rat, f float64, bits int) bool {
	if math.IsInf(f, 0) {
		return false
	}
	r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'e', -1, bits))
	return ok && r.Cmp(exact) == 0
}

func TestStrings(t *testing.T) {
	vt.Check(t, 40000, "a decimal string: any digits, printed floats, exact values of floats, type bounds, or a corrupted one; to every type: accepted exactly "+
		"if it is an integer in range, every decimal is exact as a ratio, a float is the nearest one and is accepted if the string is exact or the shortest one; non-trivial: accepted by some types only", func(c *vt.C) {
		s := drawString(c)
		if c.Range(0, 4, "corrupt") == 0 {
			s = breakIt(c, s)
		}
		judge(c, s)
	})
}

// Every short string
func TestAllShort(t *testing.T) {
	vt.All(t, 1000000, "every string of up to 4 of the characters +-.0159eE/_xIN and blank, and of up to 6 of -.05e, to every type as in TestStrings; non-trivial as there", func(c *vt.C) {
		n, chars := 4, "+-.0159eE/_xIN "
		if c.Bool("longer") {
			n, chars = 6, "-.05e"
		}
		s := c.Seq(n, strings.Split(chars, "")...)
		judge(c, s)
		for _, f := range []func(*vt.C, string) bool{agree[int], agree[uint8], agree[float32], agree[float64], agree[*big.Int], agree[*big.Float], agree[*big.Rat]} {
			f(c, s)
		}
	})
}

// edge makes a value in a type that has it, and takes it to a string and back
func edge[T constraint.Numeric](direct func(T) string, back func(string, *T) error) func(*vt.C, convx.Num) {
	return func(c *vt.C, n convx.Num) {
		if typ := reflect.TypeFor[T](); n.K != convx.NaN && convx.Representable(n, typ) {
			roundTrip(c, convx.Make(n, typ).(T), direct, back)
		}
	}
}

// Every value at the edge of some type
func TestAllEdges(t *testing.T) {
	all := []func(*vt.C, convx.Num){
		edge(conv.IntToString[int], nil), edge(conv.IntToString[int8], nil), edge(conv.IntToString[int16], nil), edge(conv.IntToString[int32], nil), edge(conv.IntToString[int64], conv.StringToInt64),
		edge(conv.UintToString[uint], nil), edge(conv.UintToString[uint8], nil), edge(conv.UintToString[uint16], nil), edge(conv.UintToString[uint32], nil), edge(conv.UintToString[uint64], conv.StringToUint64),
		edge(conv.FloatToString[float32], conv.StringToFloat32), edge(conv.FloatToString[float64], conv.StringToFloat64),
		edge(conv.BigIntToString, conv.StringToBigInt), edge(conv.BigRatToString, conv.StringToBigRat),
	}
	edges := convx.Edges()
	vt.All(t, 1000000, "values next to powers of two and ten and to the ends of floats: from every type that has them to a string and back; and their digits in plain, padded and scientific notation to every type, as in TestStrings; non-trivial as there", func(c *vt.C) {
		n := edges[c.Range(0, len(edges)-1, "edge")]
		for _, f := range all {
			f(c, n)
		}
		if n.K != convx.Finite {
			return
		}
		f, _ := n.R.Float64()
		strs := []string{strconv.FormatFloat(f, 'e', -1, 64), strconv.FormatFloat(f, 'e', -1, 32), strconv.FormatFloat(f, 'g', 17, 64), strconv.FormatFloat(f, 'E', 20, 64)}
		if n.R.IsInt() {
			s := n.R.Num().String()
			strs = append(strs, s, s+".0", s+".", s+"e0", s+"00E-2", strings.Replace(s, "-", "-000", 1), "0"+strings.TrimPrefix(s, "-"), "+"+strings.TrimPrefix(s, "-"), s+".5", s+"/1", s+"/3", s+"0/10")
			if k := len(strings.TrimPrefix(s, "-")); k > 1 {
				strs = append(strs, s[:len(s)-k+1]+"."+s[len(s)-k+1:]+"e"+strconv.Itoa(k-1))
			}
		} else {
			strs = append(strs, n.R.String())
			if convx.Dyadic(n.R) {
				s := n.R.FloatString(n.R.Denom().BitLen() - 1)
				strs = append(strs, s, s+"000", "00"+strings.TrimPrefix(s, "-"))
			}
		}
		for _, s := range strs {
			judge(c, s)
		}
	})
}

// judge compares the results of converting a string to each type with those that strconv and math/big give for it
func judge(c *vt.C, s string) {
	ints[int](c, s, nil)
	ints[int8](c, s, nil)
	ints[int16](c, s, nil)
	ints[int32](c, s, nil)
	ints[int64](c, s, conv.StringToInt64)
	ints[uint](c, s, nil)
	ints[uint8](c, s, nil)
	ints[uint16](c, s, nil)
	ints[uint32](c, s, nil)
	ints[uint64](c, s, conv.StringToUint64)

	var bi *big.Int
	err := conv.StringToBigInt(s, &bi)
	if (err == nil) != intRe.MatchString(s) {
		c.Fatalf("%q to *big.Int: %v", s, err)
	}
	if err == nil {
		if want, _ := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10); bi.Cmp(want) != 0 {
			c.Fatalf("%q to *big.Int is %s", s, bi)
		}
	}

	isFloat := floatRe.MatchString(s)
	if strings.Contains(s, "Inf") || strings.Contains(s, "NaN") {
		return // see TestFloats and TestAnyString
	}
	var exact *big.Rat
	if isFloat {
		exact, _ = new(big.Rat).SetString(s)
	}
	ratio := exact
	if m := ratioRe.FindStringSubmatch(s); m != nil {
		a, _ := new(big.Int).SetString(strings.TrimPrefix(m[1], "+"), 10)
		if b, _ := new(big.Int).SetString(m[2], 10); b.Sign() != 0 {
			ratio = new(big.Rat).SetFrac(a, b)
		}
	}
	var r1, r2, r3 *big.Rat
	for i, e := range []error{conv.StringToBigRat(s, &r1), conv.FloatStringToBigRat(s, &r2), conv.To(s, &r3)} {
		r, exact := []*big.Rat{r1, r2, r3}[i], ratio
		if i == 1 && !isFloat {
			exact = nil
		}
		if e == nil && exact == nil && strings.ContainsAny(s, "_xXbBoOpP") && i != 1 {
			continue // a number in the syntax of Go, which is not documented to be accepted or not
		}
		if (e == nil) != (exact != nil) {
			c.Fatalf("%q to *big.Rat (function %d): %v", s, i, e)
		}
		if e == nil && (r == nil || r.Cmp(exact) != 0) {
			c.Fatalf("%q to *big.Rat (function %d) is %s", s, i, r)
		}
	}

	var bf, bf2 *big.Float
	e1, e2 := conv.StringToBigFloat(s, &bf), conv.To(s, &bf2)
	if (e1 == nil) != isFloat || (e2 == nil) != isFloat {
		c.Fatalf("%q to *big.Float: %v, %v", s, e1, e2)
	}
	if isFloat {
		got, _ := bf.Rat(nil)
		diff := new(big.Rat).Sub(got, exact)
		lim := new(big.Rat).Abs(exact)
		// digits of an integer are all kept
		if diff.Abs(diff).Cmp(lim.Mul(lim, big.NewRat(1, 1<<52))) > 0 || (intRe.MatchString(s) && diff.Sign() != 0) || bf.Cmp(bf2) != 0 {
			c.Fatalf("%q to *big.Float is %s", s, bf.Text('g', 40))
		}
	}

	var f64, f64b float64
	e1, e2 = conv.StringToFloat64(s, &f64), conv.To(s, &f64b)
	if (e1 == nil) != (e2 == nil) || e1 == nil && f64 != f64b {
		c.Fatalf("%q to float64 is %v, %v and %v, %v", s, f64, e1, f64b, e2)
	}
	want, perr := strconv.ParseFloat(s, 64)
	switch {
	case e1 == nil && (!isFloat || f64 != want):
		c.Fatalf("%q to float64 is %v", s, f64)
	case e1 != nil && isFloat && perr == nil && (canonical(exact, want, 64) || new(big.Rat).SetFloat64(want).Cmp(exact) == 0):
		c.Fatalf("%q to float64: %v", s, e1)
	}

	var f32, f32b float32
	e3, e4 := conv.StringToFloat32(s, &f32), conv.To(s, &f32b)
	if (e3 == nil) != (e4 == nil) || e3 == nil && f32 != f32b {
		c.Fatalf("%q to float32 is %v, %v and %v, %v", s, f32, e3, f32b, e4)
	}
	want, perr = strconv.ParseFloat(s, 32)
	switch {
	case e3 == nil && (!isFloat || f32 != float32(want)):
		c.Fatalf("%q to float32 is %v", s, f32)
	case e3 != nil && isFloat && perr == nil && (canonical(exact, want, 32) || new(big.Rat).SetFloat64(want).Cmp(exact) == 0):
		c.Fatalf("%q to float32: %v", s, e3)
	}
	if isFloat && (e1 != nil || e3 != nil || err != nil) {
		c.NonTrivial("%s", s)
	}
	c.Class("float=%t f64=%t f32=%t int=%t", isFloat, e1 == nil, e3 == nil, err == nil)
}

// Ratio strings
func TestRatioStrings(t *testing.T) {
	vt.Check(t, 10000, "strings a/b: accepted as a ratio with the exact value, never as a float string or another type; non-trivial: not reduced", func(c *vt.C) {
		a, b := convx.DrawInteger(c.T, "a"), vt.DrawBig(c.T, 100, "b")
		s := a.String() + "/" + b.Abs(b).String()
		var r, r2, r3 *big.Rat
		err := conv.StringToBigRat(s, &r)
		if (err == nil) != (b.Sign() != 0) {
			c.Fatalf("%q to *big.Rat: %v", s, err)
		}
		if err == nil {
			if r.Cmp(new(big.Rat).SetFrac(a, b)) != 0 {
				c.Fatalf("%q to *big.Rat is %s", s, r)
			}
			if e := conv.To(s, &r2); e != nil || r2.Cmp(r) != 0 {
				c.Fatalf("%q to *big.Rat by To is %s, %v", s, r2, e)
			}
			if r.String() != s {
				c.NonTrivial("%s", s)
			}
		}
		var i int
		var f float64
		var bi *big.Int
		var bf *big.Float
		if conv.FloatStringToBigRat(s, &r3) == nil || conv.To(s, &i) == nil || conv.To(s, &f) == nil || conv.To(s, &bi) == nil || conv.To(s, &bf) == nil {
			c.Fatalf("%q is accepted as something other than a ratio", s)
		}
	})
}

// musts: a Must version of a function that reads a string panics with the error exactly if there is one, and yields the same otherwise
func musts[T any](c *vt.C, s string, name string, fn func(string, *T) error, must func(string, *T), same func(a, b T) bool) {
	var a, b T
	err := fn(s, &a)
	p, panicked := vt.Panics(func() { must(s, &b) })
	if panicked != (err != nil) || err != nil && fmt.Sprint(p) != err.Error() || err == nil && !same(a, b) {
		c.Fatalf("%s of %q: %v, %v; Must%s: %v, panics with %v", name, s, a, err, name, b, p)
	}
}

func eq[T comparable](a, b T) bool { return a == b || a != a && b != b }

func TestMusts(t *testing.T) {
	vt.Check(t, 10000, "strings as in TestStrings and ratios, to each type by the functions and their Must versions; non-trivial if accepted as a ratio", func(c *vt.C) {
		s := drawString(c)
		switch c.Range(0, 5, "change") {
		case 0:
			s = breakIt(c, s)
		case 1:
			s += "/" + fmt.Sprint(c.Range(0, 9, "denominator"))
		}
		musts(c, s, "StringToInt64", conv.StringToInt64, conv.MustStringToInt64, eq[int64])
		musts(c, s, "StringToUint64", conv.StringToUint64, conv.MustStringToUint64, eq[uint64])
		musts(c, s, "StringToFloat32", conv.StringToFloat32, conv.MustStringToFloat32, eq[float32])
		musts(c, s, "StringToFloat64", conv.StringToFloat64, conv.MustStringToFloat64, eq[float64])
		musts(c, s, "StringToBigInt", conv.StringToBigInt, conv.MustStringToBigInt, func(a, b *big.Int) bool { return a.Cmp(b) == 0 })
		musts(c, s, "StringToBigFloat", conv.StringToBigFloat, conv.MustStringToBigFloat, func(a, b *big.Float) bool { return a.Cmp(b) == 0 })
		rats := func(a, b *big.Rat) bool { return a.Cmp(b) == 0 }
		musts(c, s, "StringToBigRat", conv.StringToBigRat, conv.MustStringToBigRat, rats)
		musts(c, s, "FloatStringToBigRat", conv.FloatStringToBigRat, conv.MustFloatStringToBigRat, rats)
		var r *big.Rat
		if conv.StringToBigRat(s, &r) == nil {
			c.NonTrivial("%s", s)
		}
	})
}

// A success never leaves a nil pointer behind, whatever the string
func TestAnyString(t *testing.T) {
	vt.Check(t, 20000, "strings of characters that occur in numbers, infinities, and others, to all types; non-trivial: some target accepts it", func(c *vt.C) {
		parts := []string{"0", "1", "9", "123", "-", "+", ".", "e", "E", "p", "x", "_", "/", "Inf", "inf", "NaN", "nan", "e99999999", "1e2000000", "é", " ", "0x", "0b"}
		var s string
		for i, n := 0, c.Range(0, 5, "n"); i < n; i++ {
			s += parts[c.Range(0, len(parts)-1, "part")]
		}
		ok := false
		var r1, r2 *big.Rat
		var bi *big.Int
		var bf *big.Float
		if conv.StringToBigRat(s, &r1) == nil {
			ok = true
			if r1 == nil {
				c.Fatalf("%q is a nil *big.Rat", s)
			}
		}
		if conv.FloatStringToBigRat(s, &r2) == nil && (r2 == nil || r1 == nil || r1.Cmp(r2) != 0) {
			c.Fatalf("%q is *big.Rat %v, and as a float string %v", s, r1, r2)
		}
		if conv.StringToBigInt(s, &bi) == nil {
			ok = true
			if bi == nil {
				c.Fatalf("%q is a nil *big.Int", s)
			}
		}
		if conv.StringToBigFloat(s, &bf) == nil {
			ok = true
			if bf == nil {
				c.Fatalf("%q is a nil *big.Float", s)
			}
		}
		var f64 float64
		if conv.StringToFloat64(s, &f64) == nil {
			ok = true
			if !math.IsNaN(f64) && (bf == nil || bf.Cmp(big.NewFloat(f64)) != 0 && floatRe.MatchString(s) == false) {
				c.Fatalf("%q is %v as a float64, and %v as a *big.Float", s, f64, bf)
			}
		}
		if ok {
			c.NonTrivial("%s", s)
		}
	})
}

type myString string

// The methods of a type are not its value
func (s myString) String() string               { return "1" + string(s) }
func (s myString) MarshalText() ([]byte, error) { return []byte("1" + s), nil }
func (s *myString) UnmarshalText([]byte) error  { *s = "1"; return nil }

// agree: every function that converts a string of any string type to a T gives what To gives
func agree[T constraint.Numeric](c *vt.C, s string) bool {
	var want T
	err := conv.To(s, &want)
	w, _ := convx.Of(want)
	var a, b, d, e, m T
	v := reflect.ValueOf
	for _, f := range []struct {
		name string
		got  *T
		err  error
	}{
		{"AnyTo", &a, conv.AnyTo(s, &a)},
		{"AnyTo of a named type", &b, conv.AnyTo(myString(s), &b)},
		{"ReflectTo", &d, conv.ReflectTo(v(s), v(&d))},
		{"ReflectTo of a named type", &e, conv.ReflectTo(v(myString(s)), v(&e))},
	} {
		if (f.err == nil) != (err == nil) || err != nil && f.err.Error() != err.Error() {
			c.Fatalf("%q to %T: To gives error %v, but %s %v", s, want, err, f.name, f.err)
		}
		if g, ok := convx.Of(*f.got); err == nil && (!ok || !g.Same(w)) {
			c.Fatalf("%q to %T: To gives %s, but %s %s", s, want, w, f.name, g)
		}
	}
	pv, panicked := vt.Panics(func() { conv.MustTo(s, &m) })
	if g, _ := convx.Of(m); panicked != (err != nil) || panicked && pv.(error).Error() != err.Error() || !panicked && !g.Same(w) {
		c.Fatalf("%q to %T: To gives %s, %v, but MustTo %s, %v", s, want, w, err, g, pv)
	}
	// and back, into strings of both types
	if err == nil {
		var s1, s2 string
		var t1 myString
		e1, e2, e3 := conv.To(want, &s1), conv.AnyTo(want, &s2), conv.ReflectTo(v(want), v(&t1))
		if e1 != nil || e2 != nil || e3 != nil || s1 != s2 || s1 != string(t1) {
			c.Fatalf("%T %s to strings: %q, %v, %q, %v, %q, %v", want, w, s1, e1, s2, e2, t1, e3)
		}
	}
	return err == nil
}

func TestEntryPoints(t *testing.T) {
	vt.Check(t, 15000, "a string, sometimes corrupted, of a plain or named string type to all types, named ones included, by all functions; non-trivial: accepted by some types only", func(c *vt.C) {
		s := drawString(c)
		if c.Range(0, 3, "corrupt") == 0 {
			s = breakIt(c, s)
		}
		ok := 0
		fs := []func(*vt.C, string) bool{agree[int], agree[int8], agree[int16], agree[int32], agree[int64], agree[uint], agree[uint8], agree[uint16], agree[uint32], agree[uint64], agree[float32], agree[float64],
			agree[*big.Int], agree[*big.Float], agree[*big.Rat], agree[convx.MyInt], agree[convx.MyInt8], agree[convx.MyInt64], agree[convx.MyUint], agree[convx.MyU16], agree[convx.MyF32], agree[convx.MyF64]}
		for _, f := range fs {
			if f(c, s) {
				ok++
			}
		}
		// strings are copied
		var s1, s2, s3, s4 string
		var t1, t2 myString
		v := reflect.ValueOf
		for i, e := range []error{conv.To(s, &s1), conv.AnyTo(s, &s2), conv.AnyTo(myString(s), &s3), conv.ReflectTo(v(myString(s)), v(&s4)), conv.ReflectTo(v(s), v(&t1)), conv.ReflectTo(v(myString(s)), v(&t2))} {
			if got := []string{s1, s2, s3, s4, string(t1), string(t2)}[i]; e != nil || got != s {
				c.Fatalf("copy %d of %q is %q, %v", i, s, got, e)
			}
		}
		if ok > 0 && ok < len(fs) {
			c.NonTrivial("%s", s)
		}
	})
}
