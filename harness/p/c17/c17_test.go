package c17

import (
	"fmt"
	gomath "math"
	"math/big"
	"math/cmplx"
	"reflect"
	"strings"
	"testing"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	sx "verif/harness/streamx"
	"verif/harness/vt"
)

// run is a pipeline applied to a data set
type run struct {
	seq, want sx.Seq
	it        iter.Iter[int]
	pos       int
}

func (r *run) step(c *vt.C, what string) {
	v, err := r.it.Next()
	want, werr := r.want.At(r.pos)
	if v != want || err != werr {
		c.Fatalf("%s of %v yields %v, %v at position %d; expected %v", what, r.seq, v, err, r.pos, r.want)
	}
	r.pos++
}

func TestPipelines(t *testing.T) {
	vt.Check(t, 60000, "pipelines of up to 6 transforms, constructed once and applied to up to 3 data sets of up to 12 elements, consumed in a drawn interleaving, past the end; non-trivial if of at least 2 transforms, and 2 elements in some data set", func(c *vt.C) {
		p := sx.DrawPipeline(c, 6, sx.Kinds{Eager: true, Reduce: true, Stateful: true})
		n := c.Range(1, 3, "data sets")
		interleaved := c.Bool("interleaved")
		var runs []*run
		nt := false
		desc := p.String()
		for i := 0; i < n; i++ {
			s := sx.DrawSeq(c, 12, false, "data")
			nt = nt || len(s.Vals) >= 2
			desc += " " + fmt.Sprint(s.Vals)
			r := &run{seq: s, want: p.Model(s)}
			var v []int
			switch c.Range(0, 2, "source") {
			case 0:
				calls := 0
				r.it = p.Apply(s.Source(&calls))
			case 1:
				r.it = p.Apply(iter.OfSlice(s.Vals))
			default:
				v = append(v, s.Vals...)
				r.it = p.Apply(iter.OfSlice(v))
				s.Vals = append([]int{}, s.Vals...)
			}
			runs = append(runs, r)
			if !interleaved {
				// all of it, or a part
				k := len(r.want.Vals) + 3
				if c.Range(0, 4, "abandon") == 0 {
					k = c.Range(0, k, "part")
				}
				for ; k > 0; k-- {
					r.step(c, desc)
				}
				if v != nil && !reflect.DeepEqual(v, s.Vals) {
					c.Fatalf("%s changes the slice to %v", desc, v)
				}
			}
		}
		if interleaved {
			left := 0
			for _, r := range runs {
				left += len(r.want.Vals) + 2
			}
			for ; left > 0; left-- {
				runs[c.Range(0, n-1, "which")].step(c, desc)
			}
		}
		if nt && len(p) >= 2 {
			c.NonTrivial("%s", desc)
		}
	})
}

// TestEach is TestPipelines with a single transform each, to be short
func TestEach(t *testing.T) {
	vt.Check(t, 30000, "one transform on one data set of up to 20 elements; non-trivial if of at least 2 elements", func(c *vt.C) {
		op := sx.DrawOp(c, sx.Kinds{Eager: true, Reduce: true, Stateful: true})
		s := sx.DrawSeq(c, 20, false, "data")
		calls := 0
		r := &run{seq: s, want: op.Model(s), it: op.Fn(s.Source(&calls))}
		for range len(r.want.Vals) + 2 {
			r.step(c, op.Desc)
		}
		if len(s.Vals) >= 2 {
			c.NonTrivial("%s %v", op.Desc, s.Vals)
		}
	})
}

// every transform of every short list
func TestAllEach(t *testing.T) {
	vt.All(t, 3000000, "every transform TestEach draws, of every list of up to 4 values of 0, 1, 2, 3 and 7; non-trivial if of at least 2 elements", func(c *vt.C) {
		op := sx.DrawOp(c, sx.Kinds{Eager: true, Reduce: true, Stateful: true})
		s := sx.Seq{Vals: sx.DrawShort(c, 4), End: iter.EOI}
		calls := 0
		r := &run{seq: s, want: op.Model(s), it: op.Fn(s.Source(&calls))}
		for range len(r.want.Vals) + 2 {
			r.step(c, op.Desc)
		}
		if len(s.Vals) >= 2 {
			c.NonTrivial("%s %v", op.Desc, s.Vals)
		}
	})
}

// TestLarge: more elements than small counters can count
func TestLarge(t *testing.T) {
	vt.Check(t, 2500, "up to 2 transforms on one data set of up to 3000 elements; non-trivial if of more than 256 elements", func(c *vt.C) {
		p := sx.DrawPipeline(c, 2, sx.Kinds{Eager: true, Reduce: true, Stateful: true, Large: true})
		s := sx.DrawLarge(c, 3000, false, "data")
		calls := 0
		r := &run{seq: s, want: p.Model(s), it: p.Apply(s.Source(&calls))}
		for range len(r.want.Vals) + 2 {
			v, err := r.it.Next()
			if want, werr := r.want.At(r.pos); v != want || err != werr {
				c.Fatalf("%s of %d elements yields %v, %v at position %d; expected %v, %v; elements %v", p, len(s.Vals), v, err, r.pos, want, werr, s.Vals)
			}
			r.pos++
		}
		if len(s.Vals) > 256 {
			c.NonTrivial("%s %d %v", p, len(s.Vals), s.Vals[:5])
		}
	})
}

// TestHuge: more elements than counters of 16 bits can count
func TestHuge(t *testing.T) {
	vt.Check(t, 800, "one transform on one data set of 65530 to 140000 elements; non-trivial if of more than 65536 elements", func(c *vt.C) {
		p := sx.Pipeline{sx.DrawOp(c, sx.Kinds{Eager: true, Reduce: true, Stateful: true, Large: true})}
		s := sx.DrawHuge(c, false, "data")
		calls := 0
		want := p.Model(s)
		it := p.Apply(s.Source(&calls))
		for i := range len(want.Vals) + 2 {
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %d elements yields %v, %v at position %d; expected %v, %v", p, len(s.Vals), v, err, i, wv, werr)
			}
		}
		if len(s.Vals) > 65536 {
			c.NonTrivial("%s %d %v", p, len(s.Vals), s.Vals[:5])
		}
	})
}

func TestGenerator(t *testing.T) {
	vt.Check(t, 5000, "a generator applied to a series of iterators, the same or others; non-trivial if both occur", func(c *vt.C) {
		its := []iter.Iter[int]{iter.Of(1, 2, 3, 4), iter.Of(1, 2, 3, 4), iter.Of(1, 2, 3, 4)}
		gens := 0
		g := stream.Generator(func() func(iter.Iter[int]) iter.Iter[[2]int] {
			gens++
			gen, applied := gens, 0
			return func(it iter.Iter[int]) iter.Iter[[2]int] {
				applied++
				return iter.OfOne([2]int{gen, applied})
			}
		})
		last, gen, applied, same, other := -1, 0, 0, false, false
		desc := ""
		for n := c.Range(1, 8, "applications"); n > 0; n-- {
			k := c.Range(0, 2, "iterator")
			desc += fmt.Sprint(k)
			if k != last {
				gen, applied, last, other = gen+1, 0, k, other || last >= 0
			} else {
				same = true
			}
			applied++
			if v, err := g(its[k]).Next(); v != [2]int{gen, applied} || err != nil {
				c.Fatalf("applied to iterators %s: generation and application %v, %v; expected %d %d", desc, v, err, gen, applied)
			}
		}
		if same && other {
			c.NonTrivial("%s", desc)
		}
	})
}

func TestReduceIntoSlice(t *testing.T) {
	vt.Check(t, 10000, "a target slice of more, as many, or fewer elements than the data set, which may end with a problem; non-trivial if of at least 2 elements", func(c *vt.C) {
		most := 8
		if c.Range(0, 49, "large") == 0 {
			most = 600
		}
		s := sx.DrawSeq(c, most, true, "data")
		target := make([]int, max(0, len(s.Vals)+c.Range(-3, 3, "more")), len(s.Vals)+8)
		for i := range target {
			target[i] = 1000 + i
		}
		all := target[:cap(target)]
		want := append([]int{}, all...)
		calls := 0
		it := stream.ReduceIntoSlice(target)(s.Source(&calls))
		var got []int
		var err error
		_, panicked := vt.Panics(func() { got, err = it.Next() })
		if short := len(target) < len(s.Vals); short != panicked {
			c.Fatalf("%v into a slice of %d: panicked %v", s, len(target), panicked)
		}
		if panicked {
			return
		}
		copy(want, s.Vals)
		werr := error(nil)
		if s.End != iter.EOI {
			werr = s.End
			clear(want[:len(target)])
		}
		if err != werr || !reflect.DeepEqual(all, want) {
			c.Fatalf("%v into a slice of %d: %v, the slice is %v, expected %v", s, len(target), err, all, want)
		}
		if err == nil && (len(got) != len(target) || len(got) > 0 && &got[0] != &target[0]) {
			c.Fatalf("%v into a slice of %d: the slice yielded is another, %v", s, len(target), got)
		}
		for range 2 {
			if v, e := it.Next(); v != nil || e != iter.EOI && (werr == nil || e != werr) {
				c.Fatalf("%v into a slice of %d: %v, %v after the end", s, len(target), v, e)
			}
		}
		if len(s.Vals) >= 2 {
			c.NonTrivial("%v into %d", s, len(target))
		}
	})
}

func all[T any](c *vt.C, it iter.Iter[T]) []T {
	r := []T{}
	for {
		v, err := it.Next()
		if err != nil {
			if err != iter.EOI {
				c.Fatalf("error %v after %v", err, r)
			}
			return r
		}
		if r = append(r, v); len(r) > 10000 {
			c.Fatalf("no end: %v", r[:10])
		}
	}
}

type name string
type celsius float64
type z64 complex64

type pair = tuple.Two[int, int]

func draw[T any](c *vt.C, fn func() T) []T {
	v := make([]T, c.Range(0, 15, "len"))
	for i := range v {
		v[i] = fn()
	}
	return v
}

// checkSort checks that got is v in order
func checkSort[T any](c *vt.C, what string, v, got []T, key func(T) string, less func(a, b T) bool) {
	count := map[string]int{}
	for _, x := range v {
		count[key(x)]++
	}
	for i, x := range got {
		count[key(x)]--
		if i > 0 && less(x, got[i-1]) {
			c.Fatalf("%s of %v is %v: not in order at %d", what, v, got, i)
		}
	}
	if len(v) != len(got) {
		c.Fatalf("%s of %v is %v: other elements", what, v, got)
	}
	for k, n := range count {
		if n != 0 {
			c.Fatalf("%s of %v is %v: other elements than before, %s", what, v, got, k)
		}
	}
	if len(v) >= 3 {
		c.NonTrivial("%s %v", what, v)
	}
}

func str[T any](v T) string { return fmt.Sprint(v) }

// diff compares with results of any size
type diff struct{ key, id int }

func (a diff) Cmp(b diff) int { return (a.key - b.key) * 3 }

func TestSorts(t *testing.T) {
	vt.Check(t, 20000, "up to 15 elements of types of every kind, sorted by every function; non-trivial if of at least 3 elements", func(c *vt.C) {
		word := func() string {
			return c.Word("word", "", "a", "b", "ab", "B", "é", "aa", "\xff", "日")
		}
		num := func() float64 { return float64(c.Range(-20, 20, "number")) / 4 }
		switch c.Range(0, 10, "type") {
		case 9:
			v := draw(c, func() diff { return diff{c.Range(-5, 5, "key"), c.Range(0, 99, "id")} })
			checkSort(c, "SortCmp", v, all(c, stream.SortCmp(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]diff{}, v...))))), str, func(a, b diff) bool { return a.key < b.key })
		case 10:
			f := func() float64 { return num() * []float64{1, 1e300, 1e-300}[c.Range(0, 2, "unit")] }
			v := draw(c, func() complex128 { return complex(f(), f()) })
			checkSort(c, "SortComplex", v, all(c, stream.SortComplex(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]complex128{}, v...))))), str, func(a, b complex128) bool { return cmplx.Abs(a) < cmplx.Abs(b) })
		case 0:
			v := draw(c, func() name { return name(word()) })
			checkSort(c, "SortOrdered", v, all(c, stream.SortOrdered(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]name{}, v...))))), str, func(a, b name) bool { return a < b })
		case 1:
			v := draw(c, func() celsius { return celsius(num()) })
			checkSort(c, "SortOrdered", v, all(c, stream.SortOrdered(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]celsius{}, v...))))), str, func(a, b celsius) bool { return a < b })
		case 2:
			v := draw(c, func() uint8 { return uint8(c.Range(0, 255, "byte")) })
			checkSort(c, "SortOrdered", v, all(c, stream.SortOrdered(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]uint8{}, v...))))), str, func(a, b uint8) bool { return a < b })
		case 3:
			v := draw(c, func() z64 { return z64(complex(float32(num()), float32(num()))) })
			checkSort(c, "SortComplex", v, all(c, stream.SortComplex(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]z64{}, v...))))), str, func(a, b z64) bool { return cmplx.Abs(complex128(a)) < cmplx.Abs(complex128(b)) })
		case 4:
			v := draw(c, func() *big.Int { return vt.DrawBigIn(c.T, big.NewInt(-1<<62), big.NewInt(1<<62), "big") })
			checkSort(c, "SortCmp", v, all(c, stream.SortCmp(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]*big.Int{}, v...))))), func(b *big.Int) string { return fmt.Sprintf("%p", b) }, func(a, b *big.Int) bool { return a.Cmp(b) < 0 })
		case 5:
			v := draw(c, func() *big.Rat { return big.NewRat(int64(c.Range(-9, 9, "num")), int64(c.Range(1, 9, "den"))) })
			checkSort(c, "SortCmp", v, all(c, stream.SortCmp(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]*big.Rat{}, v...))))), func(b *big.Rat) string { return fmt.Sprintf("%p", b) }, func(a, b *big.Rat) bool { return a.Cmp(b) < 0 })
		case 6:
			v := draw(c, func() *big.Float { return big.NewFloat(num()) })
			checkSort(c, "SortCmp", v, all(c, stream.SortCmp(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]*big.Float{}, v...))))), func(b *big.Float) string { return fmt.Sprintf("%p", b) }, func(a, b *big.Float) bool { return a.Cmp(b) < 0 })
		case 7:
			v := draw(c, func() pair { return tuple.Of2(c.Range(0, 5, "key"), c.Range(0, 99, "value")) })
			less := func(a, b pair) bool { return a.T > b.T }
			checkSort(c, "SortBy key, descending,", v, all(c, stream.SortBy(less)(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]pair{}, v...))))), str, less)
		case 8:
			v := draw(c, word)
			got := all(c, stream.Reverse(sx.RichIf(len(v)&1 == 1, iter.OfSlice(append([]string{}, v...)))))
			for i := range v {
				if got[len(v)-1-i] != v[i] {
					c.Fatalf("Reverse of %q is %q", v, got)
				}
			}
			checkSort(c, "Reverse", v, got, str, func(a, b string) bool { return false })
		}
	})
}

// TestTypes: elements of other types than ints
func TestTypes(t *testing.T) {
	vt.Check(t, 20000, "up to 15 pairs, interfaces, or slices through Distinct, Duplicate, ReduceToMap, ExpandMaps, ReduceToSlice, ExpandSlices; non-trivial if of at least 3 elements", func(c *vt.C) {
		switch c.Range(0, 2, "type") {
		case 0: // values that are equal, of different types, or nil
			pool := []any{nil, 0, int8(0), "", "0", false, 0.0, [0]int{}, struct{}{}, pair{}, (*int)(nil),
				alike(0), alike(1), &one, &uno, big.NewInt(7), cmplx.NaN(), gomath.NaN(), gomath.Copysign(0, -1),
				strings.Repeat("long", 50) + "a", strings.Repeat("long", 50) + "b"}
			v := draw(c, func() any { return pool[c.Range(0, len(pool)-1, "value")] })
			var want, wantDup []any
			for i, x := range v {
				n := 1
				for _, y := range v[:i] {
					if x == y {
						n++
					}
				}
				if n == 1 {
					want = append(want, x)
				} else if n == 2 {
					wantDup = append(wantDup, x)
				}
			}
			got, dup := all(c, stream.Distinct(sx.Rich(iter.OfSlice(v)))), all(c, stream.Duplicate(iter.OfSlice(v)))
			if !same(got, want) || !same(dup, wantDup) {
				c.Fatalf("Distinct and Duplicate of %#v are %#v and %#v", v, got, dup)
			}
			if len(v) >= 3 {
				c.NonTrivial("distinct %#v", v)
			}
		case 1:
			keys := []any{nil, 0, "a", 1.5, false}
			v := draw(c, func() tuple.Two[any, error] {
				return tuple.Of2(keys[c.Range(0, 4, "key")], append(sx.Faults[:2:2], nil)[c.Range(0, 2, "value")])
			})
			want := map[any]error{}
			for _, kv := range v {
				want[kv.T] = kv.U
			}
			ms := all(c, stream.ReduceToMap(iter.OfSlice(v)))
			if len(ms) != 1 || ms[0] == nil || !reflect.DeepEqual(ms[0], want) {
				c.Fatalf("ReduceToMap of %v is %v", v, ms)
			}
			// several maps, nil and empty ones among them
			pool := []map[any]error{nil, {}, want, {"z": nil}, {nil: sx.Faults[2]}}
			maps := draw(c, func() map[any]error { return pool[c.Range(0, len(pool)-1, "map")] })
			got := all(c, stream.ExpandMaps(sx.RichIf(len(maps)&1 == 1, iter.OfSlice(maps))))
			for i, m := range maps {
				part := map[any]error{}
				if len(got) < len(m) {
					c.Fatalf("ExpandMaps of %v ends at map %d", maps, i)
				}
				for _, kv := range got[:len(m)] {
					part[kv.T] = kv.U
				}
				if got = got[len(m):]; len(m) > 0 && !reflect.DeepEqual(part, m) {
					c.Fatalf("ExpandMaps of %v: map %d is %v", maps, i, part)
				}
			}
			if len(got) > 0 {
				c.Fatalf("ExpandMaps of %v yields %v after the last", maps, got)
			}
			if len(v) >= 3 {
				c.NonTrivial("maps %v %v", v, maps)
			}
		case 2:
			pool := [][]any{nil, {}, {nil}, {1, nil}, {"a", "b", "c"}}
			v := draw(c, func() []any { return pool[c.Range(0, 4, "slice")] })
			want := []any{}
			for _, s := range v {
				want = append(want, s...)
			}
			got := all(c, stream.ExpandSlices(iter.OfSlice(v)))
			back := all(c, stream.ReduceToSlice(sx.RichIf(len(got)&1 == 1, iter.OfSlice(got))))
			if !same(got, want) || len(back) != 1 || back[0] == nil || !same(back[0], want) {
				c.Fatalf("ExpandSlices of %v is %v, collected again %v", v, got, back)
			}
			if len(v) >= 3 {
				c.NonTrivial("slices %v", v)
			}
		}
	})
}

// alike values differ but print the same
type alike int

func (alike) String() string { return "0" }
func (alike) Error() string  { return "0" }

var one, uno = 1, 1

func same(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

// Methods of named types do not matter; the texts still tell values apart.
func (m name) String() string    { return fmt.Sprint("1", string(m)) }
func (m name) Cmp(o name) int    { return vt.Compare(string(o), string(m)) }
func (m name) Equal(o name) bool { return m != o }

func (m celsius) String() string      { return fmt.Sprint("1", float64(m)) }
func (m celsius) Cmp(o celsius) int   { return vt.Compare(float64(o), float64(m)) }
func (m celsius) Less(o celsius) bool { return o < m }
func (m celsius) IsZero() bool        { return m != 0 }
