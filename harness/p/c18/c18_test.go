package c18

import (
	"fmt"
	"testing"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	sx "verif/harness/streamx"
	"verif/harness/vt"
)

// rest is that the elements not read remain for whoever reads the source next
func rest(c *vt.C, p sx.Pipeline, s sx.Seq, src iter.Iter[int], calls *int) {
	if at := *calls; at < len(s.Vals) {
		if v, err := src.Next(); v != s.Vals[at] || err != nil {
			c.Fatalf("%s of %v: read on after %d of the elements were read, the source itself yields %v, %v", p, s, at, v, err)
		}
	}
}

func TestErrors(t *testing.T) {
	vt.Check(t, 60000, "pipelines of up to 6 transforms, with problems in the source and in transforms, consumed past the end; non-trivial if a problem ends the results after at least one value", func(c *vt.C) {
		p := sx.DrawPipeline(c, 6, sx.Kinds{Eager: true, Reduce: true, Stateful: true, Errors: true})
		s := sx.DrawSeq(c, 12, true, "data")
		want := p.Model(s)
		calls := 0
		src := s.Source(&calls)
		it := p.Apply(src)
		for i := range len(want.Vals) + 3 {
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %v yields %v, %v at position %d; expected %v", p, s, v, err, i, want)
			}
		}
		rest(c, p, s, src, &calls)
		if calls > len(s.Vals)+1 {
			c.Fatalf("%s of %v: the source is read after its end", p, s)
		}
		c.Class("problem=%v", want.End != iter.EOI)
		if want.End != iter.EOI && len(want.Vals) > 0 {
			c.NonTrivial("%s of %v", p, s)
		}
	})
}

func TestSkippedProblem(t *testing.T) {
	vt.Check(t, 20000, "one transform of a source that fails, on its own; non-trivial if of at least 1 value", func(c *vt.C) {
		op := sx.DrawOp(c, sx.Kinds{Eager: true, Reduce: true, Stateful: true, Errors: true})
		s := sx.DrawSeq(c, 6, false, "data")
		s.End = sx.Faults[c.Range(0, 2, "fault")]
		want := op.Model(s)
		calls := 0
		it := op.Fn(s.Source(&calls))
		for i := range len(want.Vals) + 3 {
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %v yields %v, %v at position %d; expected %v", op.Desc, s, v, err, i, want)
			}
		}
		if len(s.Vals) > 0 {
			c.NonTrivial("%s of %v", op.Desc, s)
		}
	})
}

// every transform of every short list that ends with a problem
func TestAllEach(t *testing.T) {
	vt.All(t, 3000000, "every lazy transform TestErrors draws, of every list of up to 3 values of 0, 1, 2, 3 and 7 with a problem at the end; non-trivial if of at least 1 value", func(c *vt.C) {
		op := sx.DrawOp(c, sx.Kinds{Reduce: true, Stateful: true, Errors: true})
		p := sx.Pipeline{op}
		s := sx.Seq{Vals: sx.DrawShort(c, 3), End: sx.Faults[c.Range(0, len(sx.Faults)-1, "fault")]}
		want := op.Model(s)
		calls := 0
		it := op.Fn(s.Source(&calls))
		for i := range len(want.Vals) + 3 {
			if n := p.Needed(s, i); calls > n {
				c.Fatalf("%s of %v: %d elements read for %d results that need %d", p, s, calls, i, n)
			}
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %v yields %v, %v at position %d; expected %v", op.Desc, s, v, err, i, want)
			}
		}
		if len(s.Vals) > 0 {
			c.NonTrivial("%s of %v", op.Desc, s)
		}
	})
}

// TestLarge: more elements than small counters can count
func TestLarge(t *testing.T) {
	vt.Check(t, 1500, "up to 2 lazy transforms of up to 1500 elements and a problem; a prefix of the results read; non-trivial if more than 256 results", func(c *vt.C) {
		p := sx.DrawPipeline(c, 2, sx.Kinds{Reduce: true, Stateful: true, Errors: c.Bool("errors"), Large: true})
		s := sx.DrawLarge(c, 1500, true, "data")
		want := p.Model(s)
		calls := 0
		it := p.Apply(s.Source(&calls))
		m := c.Range(0, len(want.Vals)+2, "results")
		for i := range m {
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %d elements yields %v, %v at position %d; expected %v, %v; elements %v", p, len(s.Vals), v, err, i, wv, werr, s)
			}
		}
		// the elements read suffice for the results, and no fewer do
		if calls > 0 {
			if r := p.Model(sx.Seq{Vals: s.Vals[:calls-1], End: sx.Marker}); len(r.Vals) >= m || r.End != sx.Marker {
				c.Fatalf("%s of %d elements: %d read for %d results, fewer would do; elements %v", p, len(s.Vals), calls, m, s)
			}
		}
		if m > 256 {
			c.NonTrivial("%s of %d elements %v, %d results", p, len(s.Vals), s.Vals[:5], m)
		}
	})
}

// TestHuge: more elements than counters of 16 bits can count
func TestHuge(t *testing.T) {
	vt.Check(t, 300, "a lazy transform of 65530 to 140000 elements and a problem; a prefix of the results read; non-trivial if more than 65536 results", func(c *vt.C) {
		p := sx.Pipeline{sx.DrawOp(c, sx.Kinds{Reduce: true, Stateful: true, Errors: c.Bool("errors"), Large: true})}
		s := sx.DrawHuge(c, true, "data")
		want := p.Model(s)
		calls := 0
		it := p.Apply(s.Source(&calls))
		m := c.Range(0, len(want.Vals)+2, "results")
		for i := range m {
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %d elements yields %v, %v at position %d; expected %v, %v; elements %v...", p, len(s.Vals), v, err, i, wv, werr, s.Vals[:20])
			}
		}
		// the elements read suffice for the results, and no fewer do
		if calls > 0 {
			if r := p.Model(sx.Seq{Vals: s.Vals[:calls-1], End: sx.Marker}); len(r.Vals) >= m || r.End != sx.Marker {
				c.Fatalf("%s of %d elements: %d read for %d results, fewer would do; elements %v...", p, len(s.Vals), calls, m, s.Vals[:20])
			}
		}
		if m > 65536 {
			c.NonTrivial("%s of %d elements %v, %d results", p, len(s.Vals), s.Vals[:5], m)
		}
	})
}

// peek is a place in a pipeline, and what was seen there
type peek struct {
	at   int
	seen []int
}

// needs is the number of elements at the start of p.ops[k:] that have to be read for a number of results
func needs(p sx.Pipeline, k int, s sx.Seq, calls int) (mid sx.Seq, n int) {
	mid = p[:k].Model(s)
	return mid, p[k:].Needed(mid, calls)
}

func TestLazy(t *testing.T) {
	vt.Check(t, 40000, "pipelines of up to 6 lazy transforms, with up to 2 peeks and a prefix of the results read; non-trivial if some result is read but not all of the source", func(c *vt.C) {
		p := sx.DrawPipeline(c, 6, sx.Kinds{Reduce: true, Stateful: true, Errors: true})
		s := sx.DrawSeq(c, 14, true, "data")
		var peeks []*peek
		for n := c.Range(0, 2, "peeks"); n > 0; n-- {
			peeks = append(peeks, &peek{at: c.Range(0, len(p), "peek at")})
		}
		calls := 0
		src := s.Source(&calls)
		it := src
		for k := 0; k <= len(p); k++ {
			for _, pk := range peeks {
				if pk.at == k {
					it = stream.Peek(func(v int) { pk.seen = append(pk.seen, v) })(it)
				}
			}
			if k < len(p) {
				it = p[k].Fn(it)
			}
		}
		want := p.Model(s)
		m := c.Range(0, len(want.Vals)+2, "results")
		nt := false
		for i := 0; ; i++ {
			if _, n := needs(p, 0, s, i); calls > n {
				c.Fatalf("%s of %v: %d elements read for %d results that need %d", p, s, calls, i, n)
			} else if i > 0 && i <= len(want.Vals) && n < len(s.Vals) {
				nt = true
			}
			for _, pk := range peeks {
				mid, n := needs(p, pk.at, s, i)
				n = min(n, len(mid.Vals))
				if fmt.Sprint(pk.seen) != fmt.Sprint(mid.Vals[:n]) {
					c.Fatalf("%s of %v: after %d results the peek at transform %d has seen %v, expected %v", p, s, i, pk.at, pk.seen, mid.Vals[:n])
				}
			}
			if i == m {
				break
			}
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %v yields %v, %v at position %d; expected %v", p, s, v, err, i, want)
			}
		}
		rest(c, p, s, src, &calls)
		if nt {
			c.NonTrivial("%s of %v, %d results, %d peeks", p, s, m, len(peeks))
		}
	})
}

// TestInfinite: the source never ends
func TestInfinite(t *testing.T) {
	vt.Check(t, 20000, "pipelines of up to 5 lazy transforms of an endless source, as many results as its first 40 elements determine; non-trivial if the end of results is reached", func(c *vt.C) {
		p := sx.DrawPipeline(c, 5, sx.Kinds{Reduce: true, Stateful: true, Errors: true})
		seed := c.Range(-4, 9, "seed")
		s := sx.Seq{End: sx.Marker}
		next := func(x int) int { return (5*x + 3) % 17 }
		x := seed
		for range 40 {
			x = next(x)
			s.Vals = append(s.Vals, x)
		}
		gen := iter.InfiniteIterGen(next, seed)
		calls := 0
		it := p.Apply(sx.RichIf(seed&1 == 1, iter.OfIter(func() (int, error) {
			if calls++; calls > 1000 {
				c.Fatalf("%s of an endless source reads on without end", p)
			}
			return gen()
		})))
		want := p.Model(s)
		n := min(len(want.Vals), 12)
		if want.End != sx.Marker && n == len(want.Vals) {
			n += 2
		}
		for i := range n {
			v, err := it.Next()
			if wv, werr := want.At(i); v != wv || err != werr {
				c.Fatalf("%s of %v... yields %v, %v at position %d; expected %v", p, s.Vals, v, err, i, want)
			}
			if need := p.Needed(s, i+1); calls > need {
				c.Fatalf("%s of %v...: %d elements read for %d results that need %d", p, s.Vals, calls, i+1, need)
			}
		}
		if n > len(want.Vals) {
			c.NonTrivial("%s from %d", p, seed)
		}
	})
}
