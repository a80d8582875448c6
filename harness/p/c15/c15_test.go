package c15

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"sort"
	"testing"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	"verif/harness/iox"
	"verif/harness/streamx"
	"verif/harness/vt"
)

// source is an iterator of ints, the values it has to yield, and the error at its end.
type source struct {
	it   iter.Iter[int]
	vals []int
	end  error
	desc string
	// calls after the end of the iterating function under it
	late *int
}

var faults = []error{errors.New("fault A"), errors.New("fault B"), io.EOF, io.ErrUnexpectedEOF, vt.Lookalikes(iter.EOI)[0], vt.Lookalikes(iter.EOI)[1], vt.Lookalikes(iter.EOI)[2]}

func ints(c *vt.C, label string) []int {
	v := make([]int, c.Range(0, 5, label+".len"))
	for i := range v {
		v[i] = c.Range(0, 9, label)
	}
	return v
}

// draw is an iterator of any construction
func draw(c *vt.C, depth int) source {
	k := c.Range(0, 9, "source")
	if depth <= 0 && k > 6 {
		k -= 4
	}
	switch k {
	case 0:
		return source{iter.OfEmpty[int](), nil, iter.EOI, "empty", nil}
	case 1:
		v := c.Range(0, 9, "value")
		return source{iter.OfOne(v), []int{v}, iter.EOI, fmt.Sprintf("one %d", v), nil}
	case 2:
		v := ints(c, "of")
		return source{iter.Of(v...), v, iter.EOI, fmt.Sprintf("of %v", v), nil}
	case 3:
		v := ints(c, "slice")
		return source{iter.OfSlice(v), v, iter.EOI, fmt.Sprintf("slice %v", v), nil}
	case 4, 5: // a function that ends with EOI or a problem, along with a value that has to be dropped
		v := ints(c, "func")
		end := iter.EOI
		if c.Bool("problem") {
			end = faults[c.Range(0, len(faults)-1, "fault")]
		}
		i, late := 0, 0
		fn := func() (int, error) {
			if i++; i <= len(v) {
				return v[i-1], nil
			}
			if i > len(v)+1 {
				late++
			}
			if late > 0 {
				return 77, nil // a function that changes its mind
			}
			return 99, end
		}
		return source{iter.OfIter(fn), v, end, fmt.Sprintf("func %v %v", v, end), &late}
	case 6:
		v := ints(c, "seeds")
		n := c.Range(0, 6, "count")
		gen := iter.InfiniteIterGen(func(x int) int { return 3*x + 1 }, v...)
		// cut it, to be finite
		i := 0
		exp := append([]int{}, v...)
		seed := 0
		if len(exp) > 0 {
			seed = exp[len(exp)-1]
			exp = exp[:len(exp)-1]
		}
		for len(exp) < n {
			seed = 3*seed + 1
			exp = append(exp, seed)
		}
		exp = exp[:n]
		return source{iter.OfIter(func() (int, error) {
			if i++; i > n {
				return 0, iter.EOI
			}
			return gen()
		}), exp, iter.EOI, fmt.Sprintf("infinite %v of %d", v, n), nil}
	case 7: // some error instead of the end
		s := draw(c, depth-1)
		e := faults[c.Range(0, len(faults)-1, "fault")]
		s.it, s.end, s.desc = iter.SetError(s.it, e), e, fmt.Sprintf("%s but %v", s.desc, e)
		return s
	case 8: // with values read, perhaps to the end, and values put back, before anything else
		s := draw(c, depth-1)
		if n := c.Range(-3, len(s.vals)+1, "read"); n > 0 {
			for i := range n {
				v, err := s.it.Next()
				if i < len(s.vals) && (v != s.vals[i] || err != nil) || i >= len(s.vals) && (v != 0 || err != s.end) {
					c.Fatalf("%s yields %d, %v at position %d; expected %v then %v", s.desc, v, err, i, s.vals, s.end)
				}
			}
			s.vals = s.vals[min(n, len(s.vals)):]
			s.desc += fmt.Sprintf(" after %d", n)
		}
		for _, v := range ints(c, "unread") {
			s.it.Unread(v)
			s.vals = append([]int{v}, s.vals...)
			s.desc += fmt.Sprintf(" unread %d", v)
		}
		return s
	}
	var parts []iter.Iter[int]
	res := source{end: iter.EOI, desc: "concat("}
	ended := false
	for n := c.Range(0, 4, "parts"); n > 0; n-- {
		if c.Range(0, 7, "nil") == 0 {
			parts = append(parts, nil)
			res.desc += " nil"
			continue
		}
		s := draw(c, depth-1)
		parts = append(parts, s.it)
		res.desc += " " + s.desc
		if !ended {
			res.vals = append(res.vals, s.vals...)
			if s.end != iter.EOI {
				res.end, ended = s.end, true
			}
		}
	}
	res.it = iter.Concat(parts...)
	res.desc += ")"
	return res
}

func TestProtocol(t *testing.T) {
	vt.Check(t, 30000, "histories of Next and Unread on iterators of all constructions, well past their end; non-trivial if of at least 2 values and an Unread in between", func(c *vt.C) {
		s := draw(c, 3)
		var stack []int
		pos, unreads := 0, 0
		desc := s.desc + ":"
		for n := c.Range(len(s.vals)+2, 2*len(s.vals)+8, "ops"); n > 0; n-- {
			if c.Range(0, 3, "op") == 0 {
				v := c.Range(10, 19, "put back")
				s.it.Unread(v)
				stack = append(stack, v)
				unreads++
				desc += fmt.Sprint(" u", v)
				continue
			}
			desc += " n"
			var v int
			var err error
			if c.Bool("maybe") {
				r := iter.Maybe(s.it)
				if r.HasResult() {
					v = r.Get()
				} else {
					err = r.Error()
				}
			} else {
				v, err = s.it.Next()
			}
			want, werr := 0, error(nil)
			switch {
			case len(stack) > 0:
				want = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			case pos < len(s.vals):
				want = s.vals[pos]
				pos++
			default:
				werr = s.end
			}
			if v != want || err != werr {
				c.Fatalf("%s yields %d, %v; expected %d, %v", desc, v, err, want, werr)
			}
		}
		if s.late != nil && *s.late > 0 {
			c.Fatalf("%s: the iterating function is called after its end", desc)
		}
		if len(s.vals) >= 2 && unreads > 0 {
			c.NonTrivial("%s", desc)
		}
	})
}

// every short history
func TestAllShort(t *testing.T) {
	vt.All(t, 2000000, "every history of 7 calls of Next, Maybe, and Unread of two values, on an iterator of 0 to 3 values of each of 8 constructions; non-trivial if of at least 2 values and an Unread", func(c *vt.C) {
		n, kind, end := c.Range(0, 3, "values"), c.Range(0, 7, "kind"), iter.EOI
		vals := []int{0, 7, 5}[:n] // a zero value is a value
		calls, late := 0, 0
		fn := func(end error) func() (int, error) {
			return func() (int, error) {
				if calls++; calls <= n {
					return vals[calls-1], nil
				}
				if calls > n+1 {
					late++
				}
				return 99, end
			}
		}
		var it iter.Iter[int]
		switch kind {
		case 0:
			it = iter.Of(vals...)
		case 1:
			it = iter.OfSlice(vals)
		case 2:
			it = iter.OfIter(fn(end))
		case 3:
			end = faults[0]
			it = iter.OfIter(fn(end))
		case 4:
			end = faults[1]
			it = iter.SetError(streamx.Rich(iter.OfIter(fn(iter.EOI))), end)
		case 5:
			it = iter.Concat(iter.Of(vals[:n/2]...), nil, iter.OfEmpty[int](), iter.OfSlice(vals[n/2:]))
		case 6:
			end = faults[2]
			it = iter.Concat(iter.OfIter(fn(end)), iter.OfOne(8))
		case 7:
			it = iter.Concat(iter.Concat(iter.Of(vals...)))
		}
		var stack []int
		desc, pos := fmt.Sprintf("construction %d of %v:", kind, vals), 0
		for range 7 {
			op := c.Range(0, 3, "call")
			desc += []string{" next", " maybe", " unread 0", " unread 3"}[op]
			if op > 1 {
				it.Unread(3 * (op - 2))
				stack = append(stack, 3*(op-2))
				continue
			}
			var v, want int
			var err, werr error
			if op == 0 {
				v, err = it.Next()
			} else if r := iter.Maybe(it); r.HasResult() {
				v = r.Get()
			} else {
				err = r.Error()
			}
			switch k := len(stack); {
			case k > 0:
				want, stack = stack[k-1], stack[:k-1]
			case pos < n:
				want = vals[pos]
				pos++
			default:
				werr = end
			}
			if v != want || err != werr {
				c.Fatalf("%s yields %d, %v; expected %d, %v", desc, v, err, want, werr)
			}
		}
		if late > 0 {
			c.Fatalf("%s: the iterating function is called after its end", desc)
		}
		if n > 1 && len(stack) > 0 {
			c.NonTrivial("%s", desc)
		}
	})
}

// TestLarge: many values, iterators and values put back
func TestLarge(t *testing.T) {
	vt.Check(t, 1000, "up to 3000 values, now and then up to 140000, in up to 600 iterators, with up to 1000 values put back at a time; non-trivial if of more than 256 values", func(c *vt.C) {
		var vals []int
		var parts []iter.Iter[int]
		total := c.SizeOr(3000, 140000, "values")
		size := c.Size(max(0, total-1), "part")
		if c.Bool("many parts") {
			size = total / c.Range(1, 600, "parts")
		}
		desc := fmt.Sprintf("%d values in parts of %d", total, size)
		empty, where := 0, 0
		if c.Range(0, 3, "empty") == 0 {
			empty, where = c.Size(600, "empty ones"), c.Range(0, total, "where")
			desc += fmt.Sprintf(", %d empty ones after %d", empty, where)
		}
		for i := range total {
			vals = append(vals, i*i%1009)
		}
		for i := 0; i < total; i += max(1, size) {
			part := vals[i:min(total, i+max(1, size))]
			if where >= i && where < i+max(1, size) {
				for range empty {
					parts = append(parts, streamx.RichIf(empty&1 == 1, iter.OfSlice([]int{})))
				}
			}
			switch i % 3 {
			case 0:
				parts = append(parts, streamx.RichIf(len(part)&1 == 1, iter.OfSlice(part)))
			case 1:
				parts = append(parts, iter.Of(part...))
			default:
				k := 0
				parts = append(parts, iter.OfIter(func() (int, error) {
					if k++; k <= len(part) {
						return part[k-1], nil
					}
					return 99, iter.EOI
				}))
			}
		}
		it := iter.Concat(parts...)
		if len(parts) == 1 && c.Bool("alone") {
			it = parts[0]
		}
		var stack []int
		for left := vals; ; {
			n := c.SizeOr(1000, 140000, "calls")
			if c.Range(0, 2, "op") == 0 {
				desc += fmt.Sprintf(", unread %d", n)
				for i := range n {
					it.Unread(10000 + i)
					stack = append(stack, 10000+i)
				}
				continue
			}
			desc += fmt.Sprintf(", next %d", n)
			for range n {
				v, err := it.Next()
				want, werr := 0, error(nil)
				if k := len(stack); k > 0 {
					want, stack = stack[k-1], stack[:k-1]
				} else if len(left) > 0 {
					want, left = left[0], left[1:]
				} else {
					werr = iter.EOI
				}
				if v != want || err != werr {
					c.Fatalf("%s: yields %d, %v with %d left; expected %d, %v", desc, v, err, len(left), want, werr)
				}
				if err != nil {
					break
				}
			}
			if len(left) == 0 && len(stack) == 0 {
				break
			}
		}
		if len(vals) > 256 {
			c.NonTrivial("%s", desc)
		}
	})
}

// TestTwoIterators: iterators do not share state, and the slice they iterate is not changed
func TestTwoIterators(t *testing.T) {
	vt.Check(t, 8000, "two iterators of the same slice or string, advanced in a drawn interleaving; non-trivial if of at least 3 elements", func(c *vt.C) {
		v := ints(c, "v")
		orig := append([]int{}, v...)
		its := []iter.Iter[int]{iter.OfSlice(v), iter.OfIter(iter.SliceIterGen(v))}
		pos := []int{0, 0}
		for n := c.Range(0, 2*len(v)+4, "ops"); n > 0; n-- {
			k := c.Range(0, 1, "which")
			x, err := its[k].Next()
			if pos[k] < len(v) && (err != nil || x != orig[pos[k]]) || pos[k] >= len(v) && err != iter.EOI {
				c.Fatalf("iterator %d at %d of %v yields %d, %v", k, pos[k], orig, x, err)
			}
			pos[k]++
		}
		if fmt.Sprint(v) != fmt.Sprint(orig) {
			c.Fatalf("iterating changes %v to %v", orig, v)
		}
		if len(v) >= 3 {
			c.NonTrivial("%v %v", v, pos)
		}
	})
}

func TestMaps(t *testing.T) {
	vt.Check(t, 8000, "maps of drawn contents, also with nil keys and values of interface types; non-trivial if of at least 3 entries", func(c *vt.C) {
		m := map[any]any{}
		for n := c.Range(0, 6, "len"); n > 0; n-- {
			ks := []any{nil, 0, 1, 2, "a", "", false, 1.5, [1]int{3}}
			vs := []any{nil, 0, "v", (*int)(nil), errors.New("e")}
			m[ks[c.Range(0, len(ks)-1, "key")]] = vs[c.Range(0, len(vs)-1, "value")]
		}
		e := map[int]error{}
		for k := range m {
			if i, isa := k.(int); isa {
				if err, isa := m[k].(error); isa {
					e[i] = err
				} else {
					e[i] = nil
				}
			}
		}
		checkMap(c, m)
		checkMap(c, e)
		if c.Range(0, 99, "large") == 0 {
			l := map[int]int{}
			for i := range c.SizeOr(600, 20000, "entries") {
				l[i*7] = i
			}
			checkMap(c, l)
		}
		if len(m) >= 3 {
			c.NonTrivial("%v", m)
		}
	})
}

func checkMap[K comparable, V comparable](c *vt.C, m map[K]V) {
	it, gen := iter.OfMap(m), iter.MapIterGen(m)
	for name, next := range map[string]func() (tuple.Two[K, V], error){"OfMap": it.Next, "MapIterGen": gen} {
		seen := map[K]V{}
		for i := 0; i < len(m); i++ {
			kv, err := next()
			if err != nil {
				c.Fatalf("%s of %v ends after %d entries: %v", name, m, i, err)
			}
			if v, has := m[kv.T]; !has || v != kv.U {
				c.Fatalf("%s of %v yields %v", name, m, kv)
			}
			if _, dup := seen[kv.T]; dup {
				c.Fatalf("%s of %v yields %v twice", name, m, kv.T)
			}
			seen[kv.T] = kv.U
		}
		for i := 0; i < 2; i++ {
			if _, err := next(); err != iter.EOI {
				c.Fatalf("%s of %v does not end: %v", name, m, err)
			}
		}
	}
}

// TestGenerators: the iterating functions themselves repeat their end
func TestGenerators(t *testing.T) {
	vt.Check(t, 15000, "calls of the generated iterating functions well past their end; non-trivial if of at least 2 values", func(c *vt.C) {
		var (
			fn   func() (int, error)
			want []int
			end  = iter.EOI
			desc string
			late []iter.Iter[int]
		)
		switch c.Range(0, 3, "generator") {
		case 0:
			want = ints(c, "slice")
			fn, desc = iter.SliceIterGen(want), "SliceIterGen"
		case 1:
			fn, desc = iter.NoValueIterGen[int](), "NoValueIterGen"
		case 2:
			want = []int{c.Range(0, 9, "value")}
			fn, desc = iter.SingleValueIterGen(want[0]), "SingleValueIterGen"
		default:
			var parts []iter.Iter[int]
			ended := false
			for n := c.Range(0, 4, "parts"); n > 0; n-- {
				s := draw(c, 1)
				parts = append(parts, s.it)
				if !ended {
					want = append(want, s.vals...)
					if s.end != iter.EOI {
						end, ended = s.end, true
					}
				}
				desc += s.desc + ", "
			}
			fn, desc = iter.ConcatIterGen(parts), "ConcatIterGen "+desc
			if c.Bool("put back later") {
				// The end stays, even if the sources have elements again
				late = parts
			}
		}
		for i := 0; i < len(want)+4; i++ {
			if i == len(want)+1 {
				for j, p := range late {
					p.Unread(1000 + j)
				}
			}
			v, err := fn()
			switch {
			case i < len(want) && (v != want[i] || err != nil):
				c.Fatalf("%s: call %d yields %d, %v; expected %d", desc, i, v, err, want[i])
			case i >= len(want) && (v != 0 || err != end):
				c.Fatalf("%s: call %d yields %d, %v; expected 0, %v", desc, i, v, err, end)
			}
		}
		if len(want) >= 2 {
			c.NonTrivial("%s %v %v", desc, want, end)
		}
	})
}

func TestSeries(t *testing.T) {
	vt.Check(t, 5000, "recurrences x -> a*x+b with 0 to 4 initial values, and the Fibonacci series; non-trivial if at least 5 values are read", func(c *vt.C) {
		a, b := c.Range(-3, 3, "a"), c.Range(-5, 5, "b")
		init := make([]int, c.Range(0, 4, "initial"))
		for i := range init {
			init[i] = c.Range(-9, 9, "value")
		}
		keep := append([]int{}, init...)
		n := c.Range(0, 12, "n")
		calls := 0
		fn := iter.InfiniteIterGen(func(x int) int { calls++; return a*x + b }, init...)
		x := 0
		if len(keep) > 0 {
			x = keep[len(keep)-1]
		}
		for i := 0; i < n; i++ {
			want := 0
			if i < len(keep)-1 {
				want = keep[i]
			} else {
				x = a*x + b
				want = x
			}
			if v, err := fn(); v != want || err != nil {
				c.Fatalf("x -> %dx+%d, initial %v: value %d is %d, %v; expected %d", a, b, keep, i, v, err, want)
			}
			if calls > i+1 {
				c.Fatalf("function called %d times for %d values", calls, i+1)
			}
		}
		if fmt.Sprint(init) != fmt.Sprint(keep) {
			c.Fatalf("initial values changed from %v to %v", keep, init)
		}
		fib := iter.FibonnaciIterGen()
		p, q := big.NewInt(1), big.NewInt(1)
		for i := c.Range(0, 91, "fibonacci"); i >= 0; i-- {
			if v, err := fib(); err != nil || big.NewInt(int64(v)).Cmp(p) != 0 {
				c.Fatalf("Fibonacci series yields %d, %v instead of %v", v, err, p)
			}
			p, q = q, new(big.Int).Add(p, q)
		}
		if n >= 5 {
			c.NonTrivial("%d %d %v %d", a, b, keep, n)
		}
	})
}

// TestMixedConcat: sources of other types can be concatenated as well
func TestMixedConcat(t *testing.T) {
	vt.Check(t, 4000, "concatenations of readers, runes and maps, with failing readers; non-trivial if at least 4 values come out", func(c *vt.C) {
		var parts []iter.Iter[rune]
		var want []rune
		end := iter.EOI
		for n := c.Range(0, 5, "parts"); n > 0; n-- {
			s := c.Word("text", "", "a", "bc", "é", "𝄞x")
			var e error = io.EOF
			if c.Range(0, 4, "fails") == 0 {
				e = faults[0]
			}
			switch c.Range(0, 2, "kind") {
			case 0:
				parts = append(parts, iter.OfStringAsRunes(s))
				e = io.EOF
			case 1:
				parts = append(parts, iter.OfReaderAsRunes(iox.DrawReader(c.T, s, e).As()))
			default:
				parts = append(parts, iter.OfSlice([]rune(s)))
				e = io.EOF
			}
			if end == iter.EOI {
				want = append(want, []rune(s)...)
				if e != io.EOF {
					end = e
				}
			}
		}
		it := iter.Concat(parts...)
		var got []rune
		for {
			v, err := it.Next()
			if err != nil {
				if err != end {
					c.Fatalf("ends with %v instead of %v", err, end)
				}
				break
			}
			got = append(got, v)
		}
		if string(got) != string(want) {
			c.Fatalf("yields %q instead of %q", string(got), string(want))
		}
		if len(got) >= 4 {
			c.NonTrivial("%q %v", string(got), end)
		}
	})
}

var _ = sort.Ints
var _ union.Result[int]
