package c20

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	sx "verif/harness/streamx"
	"verif/harness/vt"
)

// info draws how to divide n items
func info(c *vt.C, n int) []stream.PInfo {
	if c.Range(0, 3, "no info") == 0 {
		return nil
	}
	u := stream.Threads
	if c.Bool("items") {
		u = stream.Items
	}
	k := c.Range(1, n+2, "N")
	switch c.Range(0, 5, "odd N") {
	case 0:
		k = c.Range(-3, 0, "N")
	case 1:
		k = []int{1, n - 1, n, n + 1, 1000000, -1 << 63, 1<<63 - 1}[c.Range(0, 6, "N")]
	}
	return []stream.PInfo{{N: k, PUnit: u}}
}

func data(c *vt.C) sx.Seq {
	n := 12
	if c.Range(0, 3, "larger") == 0 {
		n = 60
	}
	return sx.DrawSeq(c, n, false, "data")
}

// yields lets other threads run at drawn elements
func yields(c *vt.C) func(iter.Iter[int]) iter.Iter[int] {
	var plan [7]int
	for i := range plan {
		if c.Range(0, 3, "yields here") == 0 {
			plan[i] = c.Range(1, 20, "yields")
		}
	}
	return stream.Map(func(x int) int {
		for n := plan[uint(x)%7]; n > 0; n-- {
			runtime.Gosched()
		}
		return x
	})
}

func check[T comparable](c *vt.C, what string, it iter.Iter[T], want []T, end error) {
	for i := range len(want) + 3 {
		v, err := it.Next()
		var w T
		e := end
		if i < len(want) {
			w, e = want[i], nil
		}
		if v != w || err != e {
			c.Fatalf("%s yields %v, %v at position %d; expected %v then %v", what, v, err, i, want, end)
		}
	}
}

func TestLocal(t *testing.T) {
	vt.Check(t, 6000, "up to 4 transforms of single elements to any number of elements, of up to 60 elements divided in all ways, on up to 2 data sets; non-trivial if of at least 4 elements", func(c *vt.C) {
		y := yields(c)
		p := sx.DrawPipeline(c, 4, sx.Kinds{})
		s := data(c)
		inf := info(c, len(s.Vals))
		fn := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] { return p.Apply(y(it)) }, inf...)
		for i := 0; i < 2; i++ {
			what := fmt.Sprintf("Parallel(%s, %v) of %v", p, inf, s)
			v := append([]int{}, s.Vals...)
			want := p.Model(s)
			check(c, what, fn(sx.RichIf(len(v)&1 == 1, iter.OfSlice(v))), want.Vals, want.End)
			if !reflect.DeepEqual(v, append([]int{}, s.Vals...)) {
				c.Fatalf("%s changes the source to %v", what, v)
			}
			if len(s.Vals) >= 4 {
				c.NonTrivial("%s", what)
			}
			s = data(c)
		}
	})
}

func TestLarge(t *testing.T) {
	vt.Check(t, 600, "up to 2 transforms of single elements of up to 3000 elements divided in all ways; non-trivial if of more than 256 elements", func(c *vt.C) {
		p := sx.DrawPipeline(c, 2, sx.Kinds{})
		s := sx.DrawLarge(c, 3000, false, "data")
		inf := info(c, len(s.Vals))
		parts := buckets(c, s.Vals, inf)
		checkParts(c, len(s.Vals), parts, s.Vals, inf)
		want := p.Model(s)
		check(c, fmt.Sprintf("Parallel(%s, %v) of %d", p, inf, len(s.Vals)), stream.Parallel(p.Apply, inf...)(sx.RichIf(len(s.Vals)&1 == 0, iter.OfSlice(s.Vals))), want.Vals, want.End)
		if len(s.Vals) > 256 {
			c.NonTrivial("%s %v %d %v", p, inf, len(s.Vals), s.Vals[:5])
		}
	})
}

// buckets is how the items are divided
func buckets(c *vt.C, vals []int, inf []stream.PInfo) [][]int {
	var parts [][]int
	it := stream.Parallel(stream.ReduceToSlice[int], inf...)(iter.OfSlice(vals))
	for {
		part, err := it.Next()
		if err != nil {
			if err != iter.EOI {
				c.Fatalf("error %v", err)
			}
			return parts
		}
		parts = append(parts, part)
	}
}

func TestBuckets(t *testing.T) {
	vt.Check(t, 6000, "up to 60 elements divided in all ways; non-trivial if in at least 2 buckets", func(c *vt.C) {
		s := data(c)
		n := len(s.Vals)
		inf := info(c, n)
		parts := buckets(c, s.Vals, inf)
		checkParts(c, n, parts, s.Vals, inf)
		if len(parts) > 1 {
			c.NonTrivial("%d by %v", n, inf)
		}
	})
}

// every division of few items
func TestAllBuckets(t *testing.T) {
	vt.All(t, 1000000, "every number of up to 150 elements, divided by every number from -1 to 2 more, of threads and of items, or not at all; non-trivial if in at least 2 buckets", func(c *vt.C) {
		n := c.Range(0, 150, "elements")
		vals := make([]int, n)
		for i := range vals {
			vals[i] = 3*i - 1
		}
		var inf []stream.PInfo
		if u := c.Range(0, 2, "unit"); u > 0 {
			inf = []stream.PInfo{{N: c.Range(-1, n+2, "N"), PUnit: []stream.PUnit{stream.Threads, stream.Items}[u-1]}}
		}
		parts := buckets(c, vals, inf)
		checkParts(c, n, parts, vals, inf)
		if len(parts) > 1 {
			c.NonTrivial("%d by %v", n, inf)
		}
	})
}

func checkParts(c *vt.C, n int, parts [][]int, vals []int, inf []stream.PInfo) {
	var all []int
	for _, p := range parts {
		if len(p) == 0 {
			c.Fatalf("%d items by %v: %v, with an empty part", n, inf, parts)
		}
		all = append(all, p...)
	}
	if fmt.Sprint(all) != fmt.Sprint(vals) {
		c.Fatalf("%v by %v: %v", vals, inf, parts)
	}
	size := func(i int) int { return len(parts[i]) }
	ok, want := true, ""
	switch {
	case n < 2:
	case len(inf) == 0:
		// all of the same size, but for the last; about the square root of them
		want = "sqrt(n) parts of the same size"
		for i := range parts {
			ok = ok && (size(i) == size(0) || i == len(parts)-1 && size(i) <= size(0))
		}
		ok = ok && (2*size(0)-1)*(2*size(0)-1) <= 4*n && 4*n <= (2*size(0)+1)*(2*size(0)+1)
	case inf[0].N < 1 || inf[0].N > n:
	case inf[0].PUnit == stream.Items:
		want = "parts of N, and one of the rest"
		for i := range parts {
			ok = ok && (size(i) == inf[0].N || i == len(parts)-1 && size(i) <= inf[0].N)
		}
	case inf[0].N < n:
		want = "N parts, the first of which have one more"
		ok = len(parts) == inf[0].N
		for i := range parts {
			ok = ok && size(i) <= size(0) && size(i) >= size(0)-1 && (i == 0 || size(i) <= size(i-1))
		}
	}
	if !ok {
		c.Fatalf("%d items by %v: %v; expected %s", n, inf, parts, want)
	}
}

func TestPipelines(t *testing.T) {
	vt.Check(t, 8000, "up to 4 transforms of all kinds, with problems in the source or transforms: as if each part was transformed in turn, but only the first problem if there is one; non-trivial if in at least 2 parts", func(c *vt.C) {
		y := yields(c)
		p := sx.DrawPipeline(c, 4, sx.Kinds{Eager: true, Reduce: true, Stateful: true, Errors: c.Bool("errors"), Shared: true})
		s := data(c)
		inf := info(c, len(s.Vals))
		parts := buckets(c, s.Vals, inf)
		if c.Range(0, 9, "source fails") == 0 {
			s.End = sx.Faults[c.Range(0, 2, "fault")]
		}
		var want sx.Seq
		want.End = iter.EOI
		for _, part := range parts {
			r := p.Model(sx.Seq{Vals: part, End: iter.EOI})
			if r.End != iter.EOI {
				want.End = r.End
				if len(s.Vals) > 1 {
					want.Vals = nil
				} else {
					want.Vals = r.Vals
				}
				break
			}
			want.Vals = append(want.Vals, r.Vals...)
		}
		if s.End != iter.EOI {
			want = sx.Seq{Vals: nil, End: s.End}
		}
		fn := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] { return p.Apply(y(it)) }, inf...)
		calls := 0
		check(c, fmt.Sprintf("Parallel(%s, %v) of %v in parts %v", p, inf, s, parts), fn(s.Source(&calls)), want.Vals, want.End)
		c.Class("ends with a problem: %v", want.End != iter.EOI)
		if len(parts) > 1 {
			c.NonTrivial("Parallel(%s, %v) of %v", p, inf, s)
		}
	})
}

func TestTypes(t *testing.T) {
	vt.Check(t, 5000, "transforms to other types: any, errors, slices, strings, with nil among them; non-trivial if of at least 2 elements", func(c *vt.C) {
		s := data(c)
		inf := info(c, len(s.Vals))
		y := yields(c)
		src := func() iter.Iter[int] { calls := 0; return s.Source(&calls) }
		anyOf := func(x int) any {
			switch x & 3 {
			case 0:
				return nil
			case 1:
				return sx.Faults[0]
			}
			return x
		}
		errOf := func(x any) error { e, _ := x.(error); return e }
		strOf := func(x error) string { return fmt.Sprint(x) }
		var a []any
		var e []error
		var st []string
		for _, v := range s.Vals {
			a = append(a, anyOf(v))
			e = append(e, errOf(anyOf(v)))
			st = append(st, strOf(errOf(anyOf(v))))
		}
		toAny := stream.Parallel(func(it iter.Iter[int]) iter.Iter[any] { return stream.Map(anyOf)(y(it)) }, inf...)
		toErr := stream.Parallel(stream.Map(errOf), inf...)
		toStr := stream.Parallel(stream.Map(strOf), inf...)
		what := fmt.Sprintf("%v by %v", s, inf)
		check(c, what+" to any", toAny(src()), a, iter.EOI)
		check(c, what+" to errors", toErr(toAny(src())), e, iter.EOI)
		check(c, what+" to strings", toStr(toErr(toAny(src()))), st, iter.EOI)
		// nested
		nested := stream.Parallel(func(it iter.Iter[int]) iter.Iter[any] { return toAny(it) }, inf...)
		check(c, what+" nested", nested(src()), a, iter.EOI)
		if len(s.Vals) > 1 {
			c.NonTrivial("%s", what)
		}
	})
}

// TestAtOnce: each part waits for all the others to start
func TestAtOnce(t *testing.T) {
	vt.Check(t, 1000, "2 to 20 elements in threads that wait for each other; non-trivial if of at least 2 threads", func(c *vt.C) {
		n := c.Range(2, 20, "items")
		if c.Range(0, 49, "many") == 0 {
			n = c.Range(2, 3000, "items")
		}
		if c.Range(0, 9, "one processor") == 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
		}
		vals := make([]int, n)
		inf := info(c, n)
		parts := buckets(c, vals, inf)
		var wg sync.WaitGroup
		wg.Add(len(parts))
		all := make(chan struct{})
		go func() { wg.Wait(); close(all) }()
		late := make(chan struct{})
		defer time.AfterFunc(40*time.Second, func() { close(late) }).Stop()
		what := fmt.Sprintf("%d items by %v in %d parts", n, inf, len(parts))
		it := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
			wg.Done()
			return stream.Map(func(x int) int {
				select {
				case <-all:
					return x
				case <-late:
					return -1
				}
			})(it)
		}, inf...)(iter.OfSlice(vals))
		check(c, what, it, vals, iter.EOI)
		if len(parts) > 1 {
			c.NonTrivial("%s", what)
		}
	})
}

// TestWithin: the transform of a part is parallel too
func TestWithin(t *testing.T) {
	vt.Check(t, 300, "2 to 20 elements (now and then up to 400) divided into parts that are each transformed in parallel again, together with 1 to 3 more elements, all threads waiting for each other or not; non-trivial if of at least 4 threads", func(c *vt.C) {
		n := c.Range(2, 20, "items")
		if c.Range(0, 19, "many") == 0 {
			n = c.Range(2, 400, "items")
		}
		if c.Range(0, 9, "one processor") == 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
		}
		vals := make([]int, n)
		for i := range vals {
			vals[i] = i
		}
		inf := info(c, n)
		parts := buckets(c, vals, inf)
		more := make([]int, c.Range(1, 3, "more"))
		var want []int
		threads := 0
		for _, p := range parts {
			want = append(append(want, p...), more...)
			threads += len(p) + len(more)
		}
		var wg sync.WaitGroup
		wg.Add(threads)
		all, late := make(chan struct{}), make(chan struct{})
		go func() { wg.Wait(); close(all) }()
		defer time.AfterFunc(40*time.Second, func() { close(late) }).Stop()
		what := fmt.Sprintf("%d items by %v in %d parts, each with %d more", n, inf, len(parts), len(more))
		it := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
				return stream.Map(func(x int) int {
					wg.Done()
					select {
					case <-all:
						return x
					case <-late:
						return -1
					}
				})(it)
			}, stream.PInfo{N: 1, PUnit: stream.Items})(iter.Concat(it, iter.OfSlice(more)))
		}, inf...)(iter.OfSlice(vals))
		check(c, what, it, want, iter.EOI)
		if threads >= 4 {
			c.NonTrivial("%s", what)
		}
	})
}
