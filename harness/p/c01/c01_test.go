package c01

import (
	"reflect"
	"testing"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verif/harness/convx"
	"verif/harness/vt"
)

const rule = "any value of the source type (near type bounds and powers of two and ten, few or many significant bits, decimals, infinities, NaN) " +
	"through one of all the conversion functions; non-trivial: the conversion had to reject or round the value, or succeeded on one of at least 8 significant bits"

func check(c *vt.C, cv convx.Conv, in any) {
	n, _ := convx.Of(in)
	before := n.String()
	out, err := cv.F(in)
	rep, rounds := convx.Representable(n, cv.Out), convx.Rounds(in, n, cv.Out)
	if err == nil {
		got, ok := convx.Of(out)
		switch {
		case !ok:
			c.Fatalf("%s of %s: no error, and the result is nil", cv.Name, before)
		case rep && !got.Same(n):
			c.Fatalf("%s of %s: result is %s", cv.Name, before, got)
		case !rep && !rounds:
			c.Fatalf("%s of %s: not representable, but the result is %s without an error", cv.Name, before, got)
		case !rep && rounds && !convx.Rounded(n, got, cv.Out):
			c.Fatalf("%s of %s: the result %s is not the value rounded", cv.Name, before, got)
		}
	} else if err.Error() == "" {
		c.Fatalf("%s of %s: error without a text", cv.Name, before)
	}
	if after, _ := convx.Of(in); after.String() != before {
		c.Fatalf("%s changed its input from %s to %s", cv.Name, before, after)
	}
	if err != nil || !rep || (n.K == convx.Finite && n.R.Num().BitLen() >= 8) {
		c.NonTrivial("%s: %s", cv.Name, before)
	}
	c.Class("representable=%t err=%t", rep, err != nil)
}

func types() (res []reflect.Type) {
	seen := map[reflect.Type]bool{}
	for _, cv := range convx.All {
		if !seen[cv.In] {
			seen[cv.In] = true
			res = append(res, cv.In)
		}
	}
	return
}

// Each value goes through every conversion of its type
func all(c *vt.C, typ reflect.Type) {
	in := convx.Draw(c.T, typ, "in")
	for _, i := range convx.ByIn[typ] {
		check(c, convx.All[i], in)
	}
}

func one(t *testing.T, n int, sel func(reflect.Type) bool) {
	var ts []reflect.Type
	for _, typ := range types() {
		if sel(typ) {
			ts = append(ts, typ)
		}
	}
	vt.Check(t, n, rule, func(c *vt.C) { all(c, ts[c.Range(0, len(ts)-1, "type")]) })
}

func isInt(t reflect.Type) bool { return t.Kind() <= reflect.Uint64 }
func isFloat(t reflect.Type) bool {
	return t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64
}

func TestFromInts(t *testing.T)   { one(t, 20000, isInt) }
func TestFromFloats(t *testing.T) { one(t, 12000, isFloat) }
func TestFromBig(t *testing.T) {
	one(t, 12000, func(t reflect.Type) bool { return !isInt(t) && !isFloat(t) })
}

// A value converted there and back is the same value, if both conversions succeed
func TestThereAndBack(t *testing.T) {
	vt.Check(t, 30000, "a value converted to another type by any function and back by any function; non-trivial: both succeed and the types differ", func(c *vt.C) {
		cv := convx.All[c.Range(0, len(convx.All)-1, "conv")]
		in := convx.Draw(c.T, cv.In, "in")
		n, _ := convx.Of(in)
		if convx.Rounds(in, n, cv.Out) {
			return
		}
		back := convx.ByIO[[2]reflect.Type{cv.Out, cv.In}]
		if len(back) == 0 {
			return
		}
		bv := convx.All[back[c.Range(0, len(back)-1, "back")]]
		mid, err := cv.F(in)
		if err != nil {
			return
		}
		out, err := bv.F(mid)
		if err != nil {
			if n.K == convx.NaN || n.K != convx.Finite {
				return
			}
			c.Fatalf("%s of %s succeeds, but the way back %s fails: %v", cv.Name, n, bv.Name, err)
		}
		if got, ok := convx.Of(out); !ok || !got.Same(n) {
			c.Fatalf("%s of %s, and back by %s, is %s", cv.Name, n, bv.Name, got)
		}
		if cv.In != cv.Out {
			c.NonTrivial("%s: %s", cv.Name, n)
		}
	})
}

// Values that are no numbers at all are errors, not panics
func TestTableAnyToUnsupported(t *testing.T) {
	vt.Table(t, "values of types that AnyTo cannot convert, to an int and a string: an error each", func(each func(string, func(func(string, ...any)))) {
		i := 1
		pi := &i
		for _, v := range []any{true, struct{ A int }{1}, []int{1}, map[string]int{}, &i, &pi, func() {}, make(chan int), complex(1, 2), [1]int{1}, uintptr(3), (*int)(nil), nil} {
			each(reflect.TypeOf(&v).String()+" "+typeName(v), func(fail func(string, ...any)) {
				var o int
				var s string
				if conv.AnyTo(v, &o) == nil || conv.AnyTo(v, &s) == nil {
					fail("no error")
				}
			})
		}
	})
}

func typeName(v any) string {
	if v == nil {
		return "nil"
	}
	return reflect.TypeOf(v).String()
}

// Every value at the edge of some type, in every type that has it
func TestAllEdges(t *testing.T) {
	edges := convx.Edges()
	vt.All(t, 1000000, "values next to powers of two and ten and to the ends of floats, in every type that has them, through every conversion function; non-trivial as in the other tests", func(c *vt.C) {
		n := edges[c.Range(0, len(edges)-1, "edge")]
		for _, cv := range convx.All {
			if convx.Representable(n, cv.In) {
				check(c, cv, convx.Make(n, cv.In))
			}
		}
	})
}

// bits checks the number of bits of a type, whatever the value
func bits[T constraint.Signed | constraint.UnsignedInteger](c *vt.C, v T) {
	if n := conv.NumBits(v); n != reflect.TypeOf(v).Bits() {
		c.Fatalf("%T %v has %d bits", v, v, n)
	}
	c.NonTrivial("%T %v", v, v)
}

// The number of bits is what all ranges are decided by
func TestBits(t *testing.T) {
	vt.Check(t, 1500, "number of bits of a value of every integer and float type, and of types derived from them; each is non-trivial", func(c *vt.C) {
		u := vt.DrawInt[uint64](c.T, "value")
		bits(c, int(u))
		bits(c, int8(u))
		bits(c, int16(u))
		bits(c, int32(u))
		bits(c, int64(u))
		bits(c, uint(u))
		bits(c, uint8(u))
		bits(c, uint16(u))
		bits(c, uint32(u))
		bits(c, u)
		bits(c, float32(u))
		bits(c, float64(u))
		bits(c, convx.MyInt8(u))
		bits(c, convx.MyU16(u))
		bits(c, convx.MyF32(u))
		bits(c, convx.MyF64(u))
	})
}
