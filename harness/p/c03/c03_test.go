package c03

import (
	"math/big"
	"reflect"
	"testing"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verif/harness/convx"
	ob "verif/harness/other/big"
	"verif/harness/vt"
)

// mutate changes a big value in place, reusing its memory if it can
func mutate(c *vt.C, v any) {
	op := c.Range(0, 5, "mutation")
	switch b := v.(type) {
	case *big.Int:
		one := big.NewInt(1)
		switch op {
		case 0:
			b.Add(b, one)
		case 1:
			b.Sub(b, one)
		case 2:
			b.Rsh(b, 1)
		case 3:
			b.Neg(b)
		case 4:
			b.Xor(b, big.NewInt(0xff))
		default:
			b.SetInt64(987654321)
		}
	case *big.Float:
		one := big.NewFloat(1)
		switch op {
		case 0:
			b.Add(b, one)
		case 1:
			b.Mul(b, big.NewFloat(3))
		case 2:
			b.SetPrec(2)
		case 3:
			b.Neg(b)
		case 4:
			b.SetInt64(987654321)
		default:
			b.SetInf(true)
		}
	case *big.Rat:
		switch op {
		case 0:
			b.Add(b, big.NewRat(1, 1))
		case 1:
			b.Mul(b, big.NewRat(3, 7))
		case 2:
			b.Num().Add(b.Num(), big.NewInt(2))
		case 3:
			b.Neg(b)
		case 4:
			b.SetInt64(987654321)
		default:
			b.Sub(b, big.NewRat(1, 3))
		}
	}
}

func isBig(t reflect.Type) bool { return t.Kind() == reflect.Pointer }

var bigToBig = func() (res []convx.Conv) {
	for _, cv := range convx.All {
		if isBig(cv.In) && isBig(cv.Out) {
			res = append(res, cv)
		}
	}
	return
}()

// Every conversion between big types: neither side sees what happens to the other one afterwards
func TestNoSharing(t *testing.T) {
	vt.Check(t, 40000, "a big value through a conversion to a big type, then one to four in-place operations on either the input or the result; non-trivial: all succeeded ones", func(c *vt.C) {
		cv := bigToBig[c.Range(0, len(bigToBig)-1, "conv")]
		in := convx.Draw(c.T, cv.In, "in")
		n, _ := convx.Of(in)
		out, err := cv.F(in)
		if err != nil {
			return
		}
		touch, other := in, out
		if c.Bool("touchOut") {
			touch, other = out, in
		}
		want, _ := convx.Of(other)
		for i, k := 0, c.Range(1, 4, "mutations"); i < k; i++ {
			if b, isa := touch.(*big.Float); isa && b.IsInf() {
				break // operations with infinities may panic
			}
			mutate(c, touch)
		}
		if got, _ := convx.Of(other); !got.Same(want) {
			c.Fatalf("%s of %s: changing one of input and result changes the other from %s to %s", cv.Name, n, want, got)
		}
		c.NonTrivial("%s: %s", cv.Name, n)
	})
}

var toBig = func() (res []convx.Conv) {
	for _, cv := range convx.All {
		if isBig(cv.Out) {
			res = append(res, cv)
		}
	}
	return
}()

// Results are independent of each other as well: those of several conversions of one value, and of the same conversion again
func TestSeveralResults(t *testing.T) {
	vt.Check(t, 15000, "a value converted two to five times to big types, by one function or several; then one result is changed in place, and the value is converted again; non-trivial if at least two conversions succeed", func(c *vt.C) {
		cv := toBig[c.Range(0, len(toBig)-1, "conv")]
		in := convx.Draw(c.T, cv.In, "in")
		n, _ := convx.Of(in)
		var cvs []convx.Conv
		var outs []any
		var want []convx.Num
		for k := c.Range(2, 5, "conversions"); k > 0; k-- {
			cvs = append(cvs, cv)
			out, err := cv.F(in)
			if err == nil {
				num, _ := convx.Of(out)
				outs, want = append(outs, out), append(want, num)
			} else {
				cvs = cvs[:len(cvs)-1]
			}
			if c.Bool("other") {
				of := convx.ByIn[cv.In]
				if x := convx.All[of[c.Range(0, len(of)-1, "conv")]]; isBig(x.Out) {
					cv = x
				}
			}
		}
		if len(outs) < 2 {
			return
		}
		for i, out := range outs {
			if b, isa := out.(*big.Float); isa && b.IsInf() {
				b.SetInt64(-77)
			} else {
				mutate(c, out)
			}
			for k := i + 1; k < len(outs); k++ {
				if got, _ := convx.Of(outs[k]); !got.Same(want[k]) {
					c.Fatalf("%s of %s: changing the result in place changes that of %s from %s to %s", cvs[i].Name, n, cvs[k].Name, want[k], got)
				}
			}
			if b, isa := in.(*big.Float); isa && b.IsInf() {
				continue
			}
			again, err := cvs[i].F(in)
			if got, _ := convx.Of(again); err != nil || !got.Same(want[i]) {
				c.Fatalf("%s of %s is %s at first; after that is changed in place, it is %s, %v", cvs[i].Name, n, want[i], got, err)
			}
		}
		c.NonTrivial("%s: %s", cv.Name, n)
	})
}

// sameType copies through To, ToBigOps into every kind of existing target
func sameType[T interface {
	*big.Int | *big.Float | *big.Rat
}](c *vt.C, typ reflect.Type, copies []func(T, *T) error) {
	in := convx.Draw(c.T, typ, "in").(T)
	n, _ := convx.Of(in)
	cp := copies[c.Range(0, len(copies)-1, "func")]
	var target, old T
	shape := c.Range(0, 2, "target")
	switch shape {
	case 0: // nil
	case 1: // the input itself
		target = in
	default:
		target = convx.Draw(c.T, typ, "old").(T)
		old = target
	}
	_ = old
	if err := cp(in, &target); err != nil {
		c.Fatalf("copy of %s: %v", n, err)
	}
	if target == in {
		c.Fatalf("copy of %s is the same pointer", n)
	}
	if got, ok := convx.Of(target); !ok || !got.Same(n) {
		c.Fatalf("copy of %s into a target (kind %d) is %s", n, shape, got)
	}
	if bf, isa := any(target).(*big.Float); isa {
		if src := any(in).(*big.Float); bf.Prec() != src.Prec() || bf.Signbit() != src.Signbit() || bf.Mode() != src.Mode() {
			c.Fatalf("copy of %s differs in precision, sign or mode", n)
		}
	}
	if inf, isa := any(target).(*big.Float); !isa || !inf.IsInf() {
		for i, k := 0, c.Range(1, 3, "mutations"); i < k; i++ {
			if b, isa := any(target).(*big.Float); isa && b.IsInf() {
				break
			}
			mutate(c, any(target))
		}
	}
	if got, _ := convx.Of(in); !got.Same(n) {
		c.Fatalf("changing the copy of %s changes the original to %s", n, got)
	}
	c.NonTrivial("%s %d %s", typ, shape, n)
}

func TestCopies(t *testing.T) {
	vt.Check(t, 40000, "a big value copied by To, ToBigOps, AnyTo, ReflectTo, or their Must versions into a nil, aliased or used target; then the copy is changed in place; all non-trivial", func(c *vt.C) {
		switch c.Range(0, 2, "type") {
		case 0:
			sameType(c, reflect.TypeOf((*big.Int)(nil)), []func(*big.Int, **big.Int) error{conv.To[*big.Int, *big.Int], conv.ToBigOps[*big.Int, *big.Int],
				func(i *big.Int, o **big.Int) error { return conv.AnyTo(i, o) },
				func(i *big.Int, o **big.Int) error { return conv.ReflectTo(reflect.ValueOf(i), reflect.ValueOf(o)) },
				func(i *big.Int, o **big.Int) error { conv.MustTo(i, o); return nil }, func(i *big.Int, o **big.Int) error { conv.MustToBigOps(i, o); return nil }})
		case 1:
			sameType(c, reflect.TypeOf((*big.Float)(nil)), []func(*big.Float, **big.Float) error{conv.To[*big.Float, *big.Float], conv.ToBigOps[*big.Float, *big.Float],
				func(i *big.Float, o **big.Float) error { return conv.AnyTo(i, o) },
				func(i *big.Float, o **big.Float) error { return conv.ReflectTo(reflect.ValueOf(i), reflect.ValueOf(o)) },
				func(i *big.Float, o **big.Float) error { conv.MustTo(i, o); return nil }, func(i *big.Float, o **big.Float) error { conv.MustToBigOps(i, o); return nil }})
		default:
			sameType(c, reflect.TypeOf((*big.Rat)(nil)), []func(*big.Rat, **big.Rat) error{conv.To[*big.Rat, *big.Rat], conv.ToBigOps[*big.Rat, *big.Rat],
				func(i *big.Rat, o **big.Rat) error { return conv.AnyTo(i, o) },
				func(i *big.Rat, o **big.Rat) error { return conv.ReflectTo(reflect.ValueOf(i), reflect.ValueOf(o)) },
				func(i *big.Rat, o **big.Rat) error { conv.MustTo(i, o); return nil }, func(i *big.Rat, o **big.Rat) error { conv.MustToBigOps(i, o); return nil }})
		}
	})
}

var pairs = func() (res [][]int) {
	seen := map[[2]reflect.Type]bool{}
	for _, cv := range convx.All {
		k := [2]reflect.Type{cv.In, cv.Out}
		if !seen[k] && len(convx.ByIO[k]) > 1 {
			seen[k] = true
			res = append(res, convx.ByIO[k])
		}
	}
	return
}()

// All functions that convert one type to another agree, and the Must versions panic with the error exactly if there is one
func TestAgreement(t *testing.T) {
	vt.Check(t, 40000, "a value of a source type through every function converting it to one target type, and their Must versions; non-trivial: different types", func(c *vt.C) {
		p := pairs[c.Range(0, len(pairs)-1, "pair")]
		agree(c, p, convx.Draw(c.T, convx.All[p[0]].In, "in"))
	})
}

func TestAllEdges(t *testing.T) {
	edges := convx.Edges()
	vt.All(t, 1000000, "values next to powers of two and ten and to the ends of floats, in every type that has them, through every function converting them to each target type, and their Must versions", func(c *vt.C) {
		n := edges[c.Range(0, len(edges)-1, "edge")]
		for _, p := range pairs {
			if in := convx.All[p[0]].In; convx.Representable(n, in) {
				agree(c, p, convx.Make(n, in))
			}
		}
	})
}

// agree converts a value with all functions of one source and target type
func agree(c *vt.C, p []int, in any) {
	first := convx.All[p[0]]
	n, _ := convx.Of(in)
	out, err := first.F(in)
	for _, i := range p {
		cv := convx.All[i]
		o, e := cv.F(in)
		if (e == nil) != (err == nil) {
			c.Fatalf("%s of %s has error %v, but %s has %v", first.Name, n, err, cv.Name, e)
		}
		if err == nil {
			a, ok1 := convx.Of(out)
			b, ok2 := convx.Of(o)
			if !ok1 || !ok2 || !a.Same(b) {
				c.Fatalf("%s of %s is %s, but %s is %s", first.Name, n, a, cv.Name, b)
			}
		}
		if cv.Must != nil {
			var mo any
			pv, panicked := vt.Panics(func() { mo = cv.Must(in) })
			if panicked != (e != nil) {
				c.Fatalf("Must version of %s of %s: panic is %v, error is %v", cv.Name, n, pv, e)
			}
			if pe, isa := pv.(error); panicked && (!isa || pe.Error() != e.Error()) {
				c.Fatalf("Must version of %s of %s panics with %v, and not %v", cv.Name, n, pv, e)
			}
			if !panicked {
				if a, ok := convx.Of(mo); !ok {
					c.Fatalf("Must version of %s of %s is nil", cv.Name, n)
				} else if b, _ := convx.Of(o); !a.Same(b) {
					c.Fatalf("Must version of %s of %s is %s", cv.Name, n, a)
				}
			}
		}
	}
	if first.In != first.Out {
		c.NonTrivial("%s: %s", first.Name, n)
	}
	c.Class("err=%t", err != nil)
}

// strings: every function that converts a T to a string gives the same one, and every one that converts that to a T the same T
func strings[T constraint.Numeric](direct func(T) string, back func(string, *T) error) func(*vt.C) {
	type str string
	return func(c *vt.C) {
		in := convx.Draw(c.T, reflect.TypeFor[T](), "in").(T)
		n, _ := convx.Of(in)
		v := reflect.ValueOf
		var a, b, d, m string
		var e str
		for i, err := range []error{conv.To(in, &a), conv.AnyTo(in, &b), conv.ReflectTo(v(in), v(&d)), conv.ReflectTo(v(in), v(&e))} {
			if err != nil {
				c.Fatalf("function %d: %T %s to a string: %v", i, in, n, err)
			}
		}
		conv.MustTo(in, &m)
		all := []string{a, b, d, string(e), m}
		if direct != nil {
			all = append(all, direct(in))
		}
		for _, x := range all {
			if x != a {
				c.Fatalf("%T %s to strings by To, AnyTo, ReflectTo, ReflectTo to a string type, MustTo, and the function for the type: %q", in, n, all)
			}
		}
		var o, p, q, r T
		names := []string{"To", "AnyTo", "ReflectTo", "the function for the type"}
		errs := []error{conv.To(a, &o), conv.AnyTo(str(a), &p), conv.ReflectTo(v(str(a)), v(&q)), nil}
		if back != nil {
			errs[3] = back(a, &r)
		} else {
			errs, names = errs[:3], names[:3]
		}
		w, _ := convx.Of(o)
		for i, x := range []T{o, p, q, r}[:len(errs)] {
			g, _ := convx.Of(x)
			if (errs[i] == nil) != (errs[0] == nil) || errs[0] == nil && !g.Same(w) {
				c.Fatalf("%q to %T: To gives %s, %v, but %s %s, %v", a, in, w, errs[0], names[i], g, errs[i])
			}
		}
		if isBig(v(in).Type()) && errs[0] == nil {
			// none shares memory with another, or with one made later
			mutate(c, []T{o, p, q, r}[c.Range(0, len(errs)-1, "which is changed")])
			changed, _ := convx.Of(o)
			same := 0
			for _, x := range []T{o, p, q, r}[:len(errs)] {
				if g, _ := convx.Of(x); g.Same(w) {
					same++
				}
			}
			var again, more T
			conv.To(a, &again)
			if back != nil {
				back(a, &more)
			} else {
				conv.To(a, &more)
			}
			g, _ := convx.Of(again)
			h, _ := convx.Of(more)
			if same < len(errs)-1 || !g.Same(w) || !h.Same(w) {
				c.Fatalf("%q to %T four times, and one result changed in place: %d are still %s (first %s); then it is converted to %s and %s", a, in, same, w, changed, g, h)
			}
		}
		c.NonTrivial("%T %s", in, a)
	}
}

func TestStrings(t *testing.T) {
	fs := []func(*vt.C){
		strings(conv.IntToString[int], nil), strings(conv.IntToString[int8], nil), strings(conv.IntToString[int16], nil), strings(conv.IntToString[int32], nil), strings(conv.IntToString[int64], conv.StringToInt64),
		strings(conv.UintToString[uint], nil), strings(conv.UintToString[uint8], nil), strings(conv.UintToString[uint16], nil), strings(conv.UintToString[uint32], nil), strings(conv.UintToString[uint64], conv.StringToUint64),
		strings(conv.FloatToString[float32], conv.StringToFloat32), strings(conv.FloatToString[float64], conv.StringToFloat64),
		strings(conv.BigIntToString, conv.StringToBigInt), strings(conv.BigFloatToString, conv.StringToBigFloat), strings(conv.BigRatToString, conv.StringToBigRat),
		strings(conv.IntToString[convx.MyInt], nil), strings(conv.IntToString[convx.MyInt8], nil), strings(conv.IntToString[convx.MyInt64], nil), strings(conv.UintToString[convx.MyUint], nil), strings(conv.UintToString[convx.MyU16], nil),
		strings(conv.FloatToString[convx.MyF32], nil), strings(conv.FloatToString[convx.MyF64], nil),
	}
	vt.Check(t, 15000, "a number of any type, named ones included, to a string and back by every function, also to and from strings of a named type; one big result is changed in place afterwards; non-trivial: all", func(c *vt.C) {
		fs[c.Range(0, len(fs)-1, "type")](c)
	})
}

// A nil target is an error, and a nil big copies to nil
func TestTableNil(t *testing.T) {
	vt.Table(t, "nil targets for To, ToBigOps, ReflectTo of each source type, ReflectTo of types that print like big types, and nil big values copied to their own type", func(each func(string, func(func(string, ...any)))) {
		each("nil targets", func(fail func(string, ...any)) {
			if conv.To(1, (*int8)(nil)) == nil || conv.To("1", (*string)(nil)) == nil || conv.To(big.NewInt(1), (**big.Int)(nil)) == nil ||
				conv.ToBigOps(1, (**big.Rat)(nil)) == nil || conv.ToBigOps(big.NewFloat(1), (**big.Float)(nil)) == nil || conv.AnyTo(1, (*uint)(nil)) == nil {
				fail("no error")
			}
		})
		each("nil *big.Int", func(fail func(string, ...any)) {
			o, p := big.NewInt(3), big.NewInt(4)
			if conv.To((*big.Int)(nil), &o) != nil || o != nil || conv.ToBigOps((*big.Int)(nil), &p) != nil || p != nil {
				fail("not nil")
			}
			q, r := big.NewInt(4), big.NewInt(4)
			if conv.AnyTo((*big.Int)(nil), &q) != nil || q != nil || conv.ReflectTo(reflect.ValueOf((*big.Int)(nil)), reflect.ValueOf(&r)) != nil || r != nil {
				fail("not nil by AnyTo or ReflectTo")
			}
		})
		each("nil *big.Float", func(fail func(string, ...any)) {
			o, p := big.NewFloat(3), big.NewFloat(4)
			if conv.To((*big.Float)(nil), &o) != nil || o != nil || conv.ToBigOps((*big.Float)(nil), &p) != nil || p != nil {
				fail("not nil")
			}
			q, r := big.NewFloat(4), big.NewFloat(4)
			if conv.AnyTo((*big.Float)(nil), &q) != nil || q != nil || conv.ReflectTo(reflect.ValueOf((*big.Float)(nil)), reflect.ValueOf(&r)) != nil || r != nil {
				fail("not nil by AnyTo or ReflectTo")
			}
		})
		each("nil *big.Rat", func(fail func(string, ...any)) {
			o, p := big.NewRat(3, 1), big.NewRat(4, 3)
			if conv.To((*big.Rat)(nil), &o) != nil || o != nil || conv.ToBigOps((*big.Rat)(nil), &p) != nil || p != nil {
				fail("not nil")
			}
			q, r := big.NewRat(4, 3), big.NewRat(4, 3)
			if conv.AnyTo((*big.Rat)(nil), &q) != nil || q != nil || conv.ReflectTo(reflect.ValueOf((*big.Rat)(nil)), reflect.ValueOf(&r)) != nil || r != nil {
				fail("not nil by AnyTo or ReflectTo")
			}
		})
		each("ReflectTo of look-alikes", func(fail func(string, ...any)) {
			// types of another package named big are not big types
			v := reflect.ValueOf
			var (
				i  int
				bi *big.Int
				br *big.Rat
				oi *ob.Int
				of *ob.Float
				or *ob.Rat
			)
			for k, p := range [][2]reflect.Value{
				{v(&ob.Int{}), v(&i)}, {v(&ob.Float{}), v(&i)}, {v(&ob.Rat{}), v(&i)}, {v(oi), v(&bi)}, {v(&ob.Int{}), v(&bi)}, {v(&ob.Rat{}), v(&br)},
				{v(1), v(&oi)}, {v("1"), v(&of)}, {v(1.5), v(&or)}, {v(big.NewInt(1)), v(&oi)}, {v(big.NewRat(1, 2)), v(&or)}, {v(1), v(&ob.Int{})}, {v(ob.Int{}), v(&i)},
			} {
				if conv.ReflectTo(p[0], p[1]) == nil {
					fail("case %d: no error", k)
				}
			}
			if i != 0 || bi != nil || br != nil || oi != nil || of != nil || or != nil {
				fail("a target was set")
			}
		})
		each("ReflectTo", func(fail func(string, ...any)) {
			i, v := 1, reflect.ValueOf
			bi := big.NewInt(1)
			for _, e := range []error{conv.ReflectTo(reflect.Value{}, v(&i)), conv.ReflectTo(v(i), reflect.Value{}), conv.ReflectTo(v(i), v(i)),
				conv.ReflectTo(v(i), v((*string)(nil))), conv.ReflectTo(v(i), v(bi)), conv.ReflectTo(v(true), v(&i)), conv.ReflectTo(v([]int{1}), v(&i))} {
				if e == nil {
					fail("no error")
				}
			}
		})
	})
}
