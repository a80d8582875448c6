// Package streamx draws stream pipelines of ints, each with a model of the same pipeline on lists.
package streamx

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"verif/harness/vt"
)

// Seq is a list of values and the error after them.
type Seq struct {
	Vals []int
	End  error
}

// Op is a transform, and what it does to a list.
type Op struct {
	Desc  string
	Fn    func(iter.Iter[int]) iter.Iter[int]
	Model func(Seq) Seq
	// Eager transforms read the source when they are applied
	Eager bool
	// Local transforms treat each element independent of the others
	Local bool
}

// Faults are the errors of sources and transforms.
var Faults = []error{errors.New("fault A"), vt.Lookalikes(iter.EOI)[0], vt.Lookalikes(iter.EOI)[1]}

type namedFn struct {
	name string
	fn   func(int) int
}

var mappers = []namedFn{
	{"x+1", func(x int) int { return x + 1 }},
	{"-x", func(x int) int { return -x }},
	{"x*3", func(x int) int { return x * 3 }},
	{"x%4", func(x int) int { return x % 4 }},
	{"7", func(x int) int { return 7 }},
}

type namedPred struct {
	name string
	fn   func(int) bool
}

var preds = []namedPred{
	{"even", func(x int) bool { return x%2 == 0 }},
	{"x>3", func(x int) bool { return x > 3 }},
	{"x%3!=1", func(x int) bool { return x%3 != 1 }},
	{"true", func(x int) bool { return true }},
	{"false", func(x int) bool { return false }},
}

type namedReducer struct {
	name string
	fn   func(int, int) int
}

var reducers = []namedReducer{
	{"a-b", func(a, b int) int { return a - b }},
	{"2a+b", func(a, b int) int { return 2*a + b }},
	{"b", func(a, b int) int { return b }},
}

func one(v int, end error) Seq {
	if end != iter.EOI {
		return Seq{nil, end}
	}
	return Seq{[]int{v}, iter.EOI}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func pipe2[T, U, V any](f func(iter.Iter[T]) iter.Iter[U], g func(iter.Iter[U]) iter.Iter[V]) func(iter.Iter[T]) iter.Iter[V] {
	return func(it iter.Iter[T]) iter.Iter[V] { return g(f(it)) }
}

func sorted(vals []int, less func(a, b int) bool) []int {
	// merge sort: nothing shared with the code under test
	if len(vals) < 2 {
		return append([]int{}, vals...)
	}
	a, b := sorted(vals[:len(vals)/2], less), sorted(vals[len(vals)/2:], less)
	r := make([]int, 0, len(vals))
	for len(a) > 0 && len(b) > 0 {
		if less(b[0], a[0]) {
			r, b = append(r, b[0]), b[1:]
		} else {
			r, a = append(r, a[0]), a[1:]
		}
	}
	return append(append(r, a...), b...)
}

// eager models a transform that needs all the elements
func eager(f func([]int) []int) func(Seq) Seq {
	return func(s Seq) Seq {
		if s.End != iter.EOI {
			return Seq{nil, s.End}
		}
		return Seq{f(s.Vals), iter.EOI}
	}
}

// expand is the list an element is expanded to: nil, empty, or elements
func expand(x int) []int {
	switch x & 3 {
	case 0:
		return nil
	case 1:
		return []int{}
	case 2:
		return []int{x}
	}
	return []int{x, -x, x}
}

// Kinds of operations to draw
type Kinds struct {
	Eager, Reduce, Stateful, Errors bool
	// Shared pipelines are used in several threads at once, which a Generator does not allow
	Shared bool
	// Large draws larger numbers to skip and limit by
	Large bool
}

func (k Kinds) count(c *vt.C, n int, label string) int {
	if k.Large && c.Bool("large") {
		return c.Size(1000, label)
	}
	return c.Range(0, n, label)
}

// DrawOp draws an operation.
func DrawOp(c *vt.C, k Kinds) Op {
	local := []func(*vt.C, Kinds) Op{drawMap, drawFilter, drawExpand}
	fns := append([]func(*vt.C, Kinds) Op{}, local...)
	if k.Errors {
		fns = append(fns, drawMapError)
	}
	if k.Stateful {
		fns = append(fns, drawSkip, drawLimit, drawLimit, drawDistinct)
		if !k.Shared {
			fns = append(fns, drawGenerator)
		}
	}
	if k.Reduce {
		fns = append(fns, drawReduce, drawBool, drawCollect)
	}
	if k.Eager {
		fns = append(fns, drawSort)
	}
	return fns[c.Range(0, len(fns)-1, "op")](c, k)
}

func drawMap(c *vt.C, k Kinds) Op {
	m := mappers[c.Range(0, len(mappers)-1, "mapper")]
	model := func(s Seq) Seq {
		r := Seq{nil, s.End}
		for _, v := range s.Vals {
			r.Vals = append(r.Vals, m.fn(v))
		}
		return r
	}
	switch c.Range(0, 3, "via") {
	case 0: // by way of strings
		return Op{"map by way of strings " + m.name, pipe2(
			stream.Map(func(x int) string { return strconv.Itoa(m.fn(x)) }),
			stream.MapError(strconv.Atoi)), model, false, true}
	case 1: // MapError without errors
		return Op{"MapError " + m.name, stream.MapError(func(x int) (int, error) { return m.fn(x), nil }), model, false, true}
	}
	return Op{"Map " + m.name, stream.Map(m.fn), model, false, true}
}

func drawFilter(c *vt.C, k Kinds) Op {
	p := preds[c.Range(0, len(preds)-1, "predicate")]
	return Op{"Filter " + p.name, stream.Filter(p.fn), func(s Seq) Seq {
		r := Seq{nil, s.End}
		for _, v := range s.Vals {
			if p.fn(v) {
				r.Vals = append(r.Vals, v)
			}
		}
		return r
	}, false, true}
}

func drawExpand(c *vt.C, k Kinds) Op {
	if c.Bool("maps") {
		return Op{"expand to maps", pipe2(pipe2(
			stream.Map(func(x int) map[int]string {
				switch x & 3 {
				case 0:
					return nil
				case 1:
					return map[int]string{}
				}
				return map[int]string{x: strconv.Itoa(-x)}
			}), stream.ExpandMaps[int, string]),
			stream.MapError(func(kv tuple.Two[int, string]) (int, error) {
				v, err := strconv.Atoi(kv.U)
				return kv.T*2 + v, err
			})), func(s Seq) Seq {
			r := Seq{nil, s.End}
			for _, v := range s.Vals {
				if v&3 > 1 {
					r.Vals = append(r.Vals, v)
				}
			}
			return r
		}, false, true}
	}
	return Op{"expand to slices", pipe2(stream.Map(expand), stream.ExpandSlices[int]), func(s Seq) Seq {
		r := Seq{nil, s.End}
		for _, v := range s.Vals {
			r.Vals = append(r.Vals, expand(v)...)
		}
		return r
	}, false, true}
}

func drawMapError(c *vt.C, k Kinds) Op {
	n, r := c.Range(2, 5, "modulus"), c.Range(0, 4, "remainder")
	e := Faults[c.Range(0, len(Faults)-1, "fault")]
	bad := func(x int) bool { return x%n == r }
	return Op{fmt.Sprintf("MapError %v if x%%%d=%d", e, n, r), stream.MapError(func(x int) (int, error) {
		if bad(x) {
			return 555, e // the value along with an error has to be dropped
		}
		return x + 10, nil
	}), func(s Seq) Seq {
		r := Seq{nil, s.End}
		for _, v := range s.Vals {
			if bad(v) {
				r.End = e
				break
			}
			r.Vals = append(r.Vals, v+10)
		}
		return r
	}, false, true}
}

// ucount is a count for Skip and Limit, sometimes one that only a uint can have
func (k Kinds) ucount(c *vt.C, small int, label string) uint {
	if c.Range(0, 11, label+" huge") == 0 {
		return uint(1)<<c.Range(31, 63, label+" bit") + uint(c.Range(-1, 2, label+" offset"))
	}
	return uint(k.count(c, small, label))
}

func drawSkip(c *vt.C, k Kinds) Op {
	n := k.ucount(c, 6, "skip")
	return Op{fmt.Sprint("Skip ", n), stream.Skip[int](n), func(s Seq) Seq {
		return Seq{s.Vals[min(n, uint(len(s.Vals))):], s.End}
	}, false, false}
}

func drawLimit(c *vt.C, k Kinds) Op {
	n := k.ucount(c, 8, "limit")
	return Op{fmt.Sprint("Limit ", n), stream.Limit[int](n), func(s Seq) Seq {
		if n <= uint(len(s.Vals)) {
			return Seq{s.Vals[:n], iter.EOI}
		}
		return s
	}, false, false}
}

func drawDistinct(c *vt.C, k Kinds) Op {
	nth, name, fn := 1, "Distinct", stream.Distinct[int]
	if c.Bool("duplicate") {
		nth, name, fn = 2, "Duplicate", stream.Duplicate[int]
	}
	return Op{name, fn, func(s Seq) Seq {
		r := Seq{nil, s.End}
		seen := map[int]int{}
		for _, v := range s.Vals {
			if seen[v]++; seen[v] == nth {
				r.Vals = append(r.Vals, v)
			}
		}
		return r
	}, false, false}
}

// drawGenerator is the running total of each data set
func drawGenerator(c *vt.C, k Kinds) Op {
	return Op{"Generator running total", stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
		sum := 0
		return stream.Map(func(x int) int { sum += x; return sum })
	}), func(s Seq) Seq {
		r, sum := Seq{nil, s.End}, 0
		for _, v := range s.Vals {
			sum += v
			r.Vals = append(r.Vals, sum)
		}
		return r
	}, false, false}
}

func drawReduce(c *vt.C, k Kinds) Op {
	f := reducers[c.Range(0, len(reducers)-1, "reducer")]
	id := c.Range(-3, 3, "identity")
	fold := func(init int, vals []int) int {
		for _, v := range vals {
			init = f.fn(init, v)
		}
		return init
	}
	name := f.name
	switch c.Range(0, 6, "kind") {
	case 0: // without an identity
		return Op{"Reduce " + name, stream.Reduce(f.fn), eager(func(v []int) []int {
			if len(v) == 0 {
				return nil
			}
			return []int{fold(v[0], v[1:])}
		}), false, false}
	case 1:
		return Op{fmt.Sprintf("Reduce %s from %d", name, id), stream.Reduce(f.fn, id), eager(func(v []int) []int { return []int{fold(id, v)} }), false, false}
	case 2: // from the zero value
		return Op{"ReduceTo " + name, pipe2(stream.ReduceTo(func(u []string, x int) []string { return append(u, strconv.Itoa(x%10)) }), stream.Map(digits)),
			eager(func(v []int) []int {
				if len(v) == 0 {
					return nil
				}
				r := 17
				for _, x := range v {
					r = r*31 + x%10
				}
				return []int{r}
			}), false, false}
	case 3:
		return Op{fmt.Sprintf("ReduceTo %s from %d", name, id), pipe2(
			stream.ReduceTo(func(u float64, x int) float64 { return float64(f.fn(int(u), x) % 100000) }, float64(id)),
			stream.Map(func(f float64) int { return int(f) })), eager(func(v []int) []int {
			r := id
			for _, x := range v {
				r = f.fn(r, x) % 100000
			}
			return []int{r}
		}), false, false}
	case 4:
		return Op{"Count", stream.Count[int], eager(func(v []int) []int { return []int{len(v)} }), false, false}
	case 5:
		return Op{"Sum", stream.Sum[int], eager(func(v []int) []int {
			if len(v) == 0 {
				return nil
			}
			return []int{func() (t int) {
				for _, x := range v {
					t += x
				}
				return
			}()}
		}), false, false}
	}
	max := c.Bool("max")
	fn, n := stream.Min[int], "Min"
	if max {
		fn, n = stream.Max[int], "Max"
	}
	return Op{n, fn, eager(func(v []int) []int {
		if len(v) == 0 {
			return nil
		}
		r := v[0]
		for _, x := range v {
			if (x > r) == max {
				r = x
			}
		}
		return []int{r}
	}), false, false}
}

func digits(s []string) int {
	r := 17
	for _, d := range s {
		n, err := strconv.Atoi(d)
		if err != nil {
			return -1
		}
		r = r*31 + n
	}
	return r
}

func drawBool(c *vt.C, k Kinds) Op {
	p := preds[c.Range(0, len(preds)-1, "predicate")]
	stop, id := c.Bool("stop"), c.Bool("identity")
	var fn func(iter.Iter[int]) iter.Iter[bool]
	name := fmt.Sprintf("ReduceToBool %s identity %v stop %v", p.name, id, stop)
	negate := false
	switch c.Range(0, 3, "kind") {
	case 0:
		name, fn, id, stop = "AllMatch "+p.name, stream.AllMatch(p.fn), true, false
	case 1:
		name, fn, id, stop = "AnyMatch "+p.name, stream.AnyMatch(p.fn), false, true
	case 2:
		name, fn, id, stop, negate = "NoneMatch "+p.name, stream.NoneMatch(p.fn), true, false, true
	default:
		fn = stream.ReduceToBool(p.fn, id, stop)
	}
	return Op{name, pipe2(fn, stream.Map(b2i)), func(s Seq) Seq {
		for _, v := range s.Vals {
			if (p.fn(v) != negate) == stop {
				return Seq{[]int{b2i(stop)}, iter.EOI} // further elements or problems do not matter
			}
		}
		if s.End != iter.EOI {
			return Seq{nil, s.End}
		}
		if len(s.Vals) == 0 {
			return Seq{[]int{b2i(id)}, iter.EOI}
		}
		return Seq{[]int{b2i(!stop)}, iter.EOI}
	}, false, false}
}

func drawCollect(c *vt.C, k Kinds) Op {
	if c.Bool("map") { // the last value of each key wins; any order
		n := c.Range(2, 5, "modulus")
		return Op{fmt.Sprint("ReduceToMap, ExpandMaps, SortOrdered by x%", n), func(it iter.Iter[int]) iter.Iter[int] {
			return lazily(it, func(it iter.Iter[int]) iter.Iter[int] {
				kvs := stream.Map(func(x int) tuple.Two[string, int] { return tuple.Of2(strconv.Itoa(x%n), x) })(it)
				return stream.SortOrdered(stream.Map(func(kv tuple.Two[string, int]) int {
					k, err := strconv.Atoi(kv.T)
					if err != nil || kv.U%n != k {
						return -999999
					}
					return kv.U
				})(stream.ExpandMaps(stream.ReduceToMap(kvs))))
			})
		}, eager(func(v []int) []int {
			last := map[int]int{}
			for _, x := range v {
				last[x%n] = x
			}
			var r []int
			for _, x := range last {
				r = append(r, x)
			}
			sort.Ints(r)
			return r
		}), false, false}
	}
	return Op{"ReduceToSlice, ExpandSlices", pipe2(stream.ReduceToSlice[int], stream.ExpandSlices[int]),
		eager(func(v []int) []int { return v }), false, false}
}

// lazily applies a transform only when the first value is asked for
func lazily(it iter.Iter[int], f func(iter.Iter[int]) iter.Iter[int]) iter.Iter[int] {
	var r iter.Iter[int]
	return iter.OfIter(func() (int, error) {
		if r == nil {
			r = f(it)
		}
		return r.Next()
	})
}

func asc(a, b int) bool  { return a < b }
func desc(a, b int) bool { return a > b }

func drawSort(c *vt.C, k Kinds) Op {
	switch c.Range(0, 4, "sort") {
	case 0:
		return Op{"SortOrdered", stream.SortOrdered[int], eager(func(v []int) []int { return sorted(v, asc) }), true, false}
	case 1:
		return Op{"SortBy desc", stream.SortBy(desc), eager(func(v []int) []int { return sorted(v, desc) }), true, false}
	case 2:
		return Op{"SortCmp", pipe2(pipe2(stream.Map(func(x int) *big.Int { return big.NewInt(int64(x)) }), stream.SortCmp[*big.Int]),
			stream.Map(func(x *big.Int) int { return int(x.Int64()) })), eager(func(v []int) []int { return sorted(v, asc) }), true, false}
	case 3: // by real part, as the magnitudes of non-negative numbers are in the same order
		return Op{"SortComplex of x*x", pipe2(pipe2(stream.Map(func(x int) complex128 { return complex(float64(x%1000)*float64(x%1000), 0) }), stream.SortComplex[complex128]),
			stream.Map(func(x complex128) int { return int(real(x)) })), eager(func(v []int) []int {
			var r []int
			for _, x := range v {
				r = append(r, (x%1000)*(x%1000))
			}
			return sorted(r, asc)
		}), true, false}
	}
	return Op{"Reverse", stream.Reverse[int], eager(func(v []int) []int {
		var r []int
		for i := len(v) - 1; i >= 0; i-- {
			r = append(r, v[i])
		}
		return r
	}), true, false}
}

// Pipeline is a list of operations.
type Pipeline []Op

// DrawPipeline draws up to n operations.
func DrawPipeline(c *vt.C, n int, k Kinds) Pipeline {
	var p Pipeline
	for n = c.Range(0, n, "ops"); n > 0; n-- {
		p = append(p, DrawOp(c, k))
	}
	return p
}

// Apply is the transformed iterator.
func (p Pipeline) Apply(it iter.Iter[int]) iter.Iter[int] {
	for _, op := range p {
		it = op.Fn(it)
	}
	return it
}

// Model is the transformed list.
func (p Pipeline) Model(s Seq) Seq {
	for _, op := range p {
		s = op.Model(s)
	}
	return s
}

func (p Pipeline) String() string {
	var d []string
	for _, op := range p {
		d = append(d, op.Desc)
	}
	return strings.Join(d, " | ")
}

// Marker is the end of a list of which no more is known.
var Marker = errors.New("unknown")

// Needed is the length of the shortest part of s that determines the results of the given number of calls of Next. If it is
// longer than s.Vals, the end is needed as well.
func (p Pipeline) Needed(s Seq, calls int) int {
	for n := 0; n <= len(s.Vals); n++ {
		r := p.Model(Seq{s.Vals[:n], Marker})
		if len(r.Vals) >= calls || r.End != Marker {
			return n
		}
	}
	return len(s.Vals) + 1
}

// DrawVals draws up to n values.
func DrawVals(c *vt.C, n int, label string) []int {
	v := make([]int, c.Range(0, n, label+".len"))
	for i := range v {
		v[i] = c.Range(-4, 9, label)
	}
	return v
}

// DrawShort draws up to n values of 0, 1, 2, 3 and 7, in a way that vt.All enumerates each list once.
func DrawShort(c *vt.C, n int) []int {
	v := []int{}
	for range n {
		k := c.Range(0, 5, "value")
		if k == 0 {
			break
		}
		v = append(v, []int{0, 1, 2, 3, 7}[k-1])
	}
	return v
}

// DrawLarge draws up to most values, constant, ascending, descending, periodic, or pseudo-random, and an end.
func DrawLarge(c *vt.C, most int, faults bool, label string) Seq {
	return fill(c, c.SizeOr(most, 140000, label+".size"), faults, label)
}

// DrawHuge draws more values than a counter of 16 bits can count.
func DrawHuge(c *vt.C, faults bool, label string) Seq {
	return fill(c, c.Range(65530, 140000, label+".size"), faults, label)
}

func fill(c *vt.C, size int, faults bool, label string) Seq {
	s := DrawSeq(c, 0, faults, label)
	s.Vals = make([]int, size)
	mul, add, mod := c.Range(-3, 3, label+".mul"), c.Range(-3, 3, label+".add"), c.Size(max(1000, len(s.Vals)), label+".mod")+1
	random := c.Range(0, 2, label+".random") == 0
	x := c.Range(0, 1<<20, label+".seed")
	for i := range s.Vals {
		s.Vals[i] = (mul*i + add) % mod
		if random {
			x = x*6364136223846793005 + 1442695040888963407
			s.Vals[i] = x >> 40 % mod
		}
	}
	return s
}

// DrawSeq draws values and an end.
func DrawSeq(c *vt.C, n int, faults bool, label string) Seq {
	s := Seq{DrawVals(c, n, label), iter.EOI}
	if faults && c.Range(0, 2, label+".fails") == 0 {
		s.End = Faults[c.Range(0, len(Faults)-1, label+".fault")]
	}
	return s
}

// Source is an iterator of s; it counts the calls.
// Of two thirds of sequences it is an iterator of another type.
func (s Seq) Source(calls *int) iter.Iter[int] {
	odd := len(s.Vals)
	for _, v := range s.Vals {
		odd += v & 3
	}
	return RichIf(odd%3 != 0, iter.OfIter(func() (int, error) {
		*calls++
		if *calls <= len(s.Vals) {
			return s.Vals[*calls-1], nil
		}
		return 99, s.End
	}))
}

func (s Seq) String() string { return fmt.Sprintf("%v then %v", s.Vals, s.End) }

// At is the result of the i-th call of Next, counted from 0.
func (s Seq) At(i int) (int, error) {
	if i < len(s.Vals) {
		return s.Vals[i], nil
	}
	return 0, s.End
}
