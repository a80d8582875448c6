package c02

import (
	"math"
	"math/big"
	"testing"

	"verif/harness/convx"
	"verif/harness/vt"
)

func accepted(c *vt.C, cv convx.Conv, in any) {
	n, _ := convx.Of(in)
	out, err := cv.F(in)
	if err != nil {
		c.Fatalf("%s of %s: the target has such a value, but: %v", cv.Name, n, err)
	}
	if got, ok := convx.Of(out); !ok || !got.Same(n) {
		c.Fatalf("%s of %s: result is %s", cv.Name, n, got)
	}
	if cv.Must != nil {
		if got, ok := convx.Of(cv.Must(in)); !ok || !got.Same(n) {
			c.Fatalf("Must version of %s of %s: result is %s", cv.Name, n, got)
		}
	}
	if cv.In != cv.Out && n.K == convx.Finite && n.R.Sign() != 0 {
		c.NonTrivial("%s: %s", cv.Name, n)
	}
}

// A value of the target type that the source type has too goes through every function
func TestRepresentable(t *testing.T) {
	vt.Check(t, 60000, "a value of the target type of a conversion, made exactly in the source type, if it has it; non-trivial: types differ, value is not zero", func(c *vt.C) {
		cv := convx.All[c.Range(0, len(convx.All)-1, "conv")]
		src, dst := cv.In, cv.Out
		fromSource := c.Bool("fromSource")
		if fromSource {
			src, dst = dst, src
		}
		v := convx.Draw(c.T, dst, "value")
		n, _ := convx.Of(v)
		if !convx.Representable(n, src) {
			c.Class("source lacks it")
			return
		}
		if fromSource { // with whatever precision or sign of zero it was drawn with
			accepted(c, cv, v)
			return
		}
		accepted(c, cv, convx.Make(n, cv.In))
	})
}

// Integers go through every conversion of every type that has them
func TestIntegersEverywhere(t *testing.T) {
	vt.Check(t, 700, "an integer near the bounds of types or of any size, made in every source type that has it, through every conversion whose target has it", func(c *vt.C) {
		n := convx.Num{R: new(big.Rat).SetInt(convx.DrawInteger(c.T, "value"))}
		for _, cv := range convx.All {
			if convx.Representable(n, cv.In) && convx.Representable(n, cv.Out) {
				accepted(c, cv, convx.Make(n, cv.In))
			}
		}
	})
}

// float64 values within the range of a float32 are rounded, not rejected; ratios always have a *big.Float
func TestRoundingAccepted(t *testing.T) {
	vt.Check(t, 30000, "a finite float64 or named type of it to float32, or a ratio to *big.Float; non-trivial: the value is rounded", func(c *vt.C) {
		cv := convx.All[rounding[c.Range(0, len(rounding)-1, "conv")]]
		in := convx.Draw(c.T, cv.In, "in")
		n, _ := convx.Of(in)
		if !convx.Rounds(in, n, cv.Out) {
			return
		}
		if cv.Out.Kind().String() == "float32" {
			f, _ := n.R.Float64()
			if a := math.Abs(f); a < math.SmallestNonzeroFloat32 || a > math.MaxFloat32 {
				return
			}
		}
		out, err := cv.F(in)
		if err != nil {
			c.Fatalf("%s of %s: %v", cv.Name, n, err)
		}
		if got, ok := convx.Of(out); !ok || !convx.Rounded(n, got, cv.Out) {
			c.Fatalf("%s of %s: result is %s", cv.Name, n, got)
		}
		c.NonTrivial("%s: %s", cv.Name, n)
	})
}

var rounding = func() (res []int) {
	for i, cv := range convx.All {
		if cv.Out.Kind().String() == "float32" && cv.In.Kind().String() == "float64" ||
			cv.In.String() == "*big.Rat" && cv.Out.String() == "*big.Float" {
			res = append(res, i)
		}
	}
	return
}()

// Every value of the 8 and 16 bit types
func TestTableSmallInts(t *testing.T) {
	vt.Table(t, "every value of int8, uint8, and their named types, and every 17th of int16 and uint16, through every conversion: accepted exactly if representable", func(each func(string, func(func(string, ...any)))) {
		for v := int64(math.MinInt16); v <= math.MaxUint16; v++ {
			if (v < -128 || v > 255) && v%17 != 0 && v < math.MaxUint16-2 && v > math.MinInt16+2 && (v < math.MaxInt16-2 || v > math.MaxInt16+2) {
				continue
			}
			n := convx.Num{R: new(big.Rat).SetInt64(v)}
			each(n.String(), func(fail func(string, ...any)) {
				for _, cv := range convx.All {
					k := cv.In.Kind().String()
					if (k != "int8" && k != "uint8" && k != "int16" && k != "uint16") || !convx.Representable(n, cv.In) {
						continue
					}
					out, err := cv.F(convx.Make(n, cv.In))
					if rep := convx.Representable(n, cv.Out); rep != (err == nil) {
						fail("%s: error is %v", cv.Name, err)
					}
					if err == nil {
						if got, ok := convx.Of(out); !ok || !got.Same(n) {
							fail("%s: result is %s", cv.Name, got)
						}
					}
				}
			})
		}
	})
}

// Every value at the edge of some type, in every type that has it, to every type that has it
func TestAllEdges(t *testing.T) {
	edges := convx.Edges()
	vt.All(t, 1000000, "values next to powers of two and ten and to the ends of floats, in every type that has them, through every conversion whose target has them; non-trivial as in the other tests", func(c *vt.C) {
		n := edges[c.Range(0, len(edges)-1, "edge")]
		for _, cv := range convx.All {
			if convx.Representable(n, cv.In) && convx.Representable(n, cv.Out) {
				accepted(c, cv, convx.Make(n, cv.In))
			}
		}
	})
}
