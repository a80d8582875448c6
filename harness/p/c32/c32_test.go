package c32

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	mj "github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"
	mio "github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/math"
	mreflect "github.com/bantling/micro/reflect"
	"github.com/bantling/micro/rest"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"
	"net/http/httptest"
	"pgregory.net/rapid"
	"verif/harness/convx"
	"verif/harness/jsonx"
	sx "verif/harness/streamx"
	"verif/harness/vt"
)

// task is a call whose result depends on its arguments only. Its arguments are shared by all who run it. It may change
// its results.
type task struct {
	name string
	run  func() string
}

func (t task) do() (res string) {
	if v, p := vt.Panics(func() { res = t.run() }); p {
		return fmt.Sprint("panic ", v)
	}
	return res
}

// spoil changes a number of arbitrary precision in place, the memory of its digits included
func spoil(v any) {
	words := func(ws []big.Word) {
		ws = ws[:cap(ws)]
		for i := range ws {
			ws[i] ^= 0x5555
		}
	}
	switch b := v.(type) {
	case *big.Int:
		if b != nil {
			words(b.Bits())
			b.SetInt64(-77)
		}
	case *big.Rat:
		if b != nil {
			words(b.Num().Bits())
			b.SetFrac64(-77, 13)
		}
	case *big.Float:
		if b != nil {
			b.Neg(b).SetInt64(-77)
		}
	}
}

func bigString(v any, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	n, ok := convx.Of(v)
	res := fmt.Sprint(n, ok)
	if f, isa := v.(*big.Float); isa && f != nil {
		res += fmt.Sprint(f.Prec(), f.Mode())
	}
	spoil(v)
	return res
}

func conversions(c *vt.C) task {
	cv := convx.All[c.Range(0, len(convx.All)-1, "conv")]
	in := convx.Draw(c.T, cv.In, "in")
	return task{fmt.Sprintf("%s of %v", cv.Name, in), func() string {
		out, err := cv.F(in)
		return bigString(out, err)
	}}
}

func fromString[T constraint.Numeric](s string) string {
	var a, b T
	err := conv.To(s, &a)
	err2 := conv.AnyTo(s, &b)
	return bigString(any(a), err) + bigString(any(b), err2)
}

func stringConversions(c *vt.C) task {
	typ := []reflect.Type{reflect.TypeFor[int64](), reflect.TypeFor[uint64](), reflect.TypeFor[float64](), reflect.TypeFor[*big.Int](), reflect.TypeFor[*big.Float](), reflect.TypeFor[*big.Rat]()}[c.Range(0, 5, "type")]
	in := convx.Draw(c.T, typ, "in")
	s := fmt.Sprint(in)
	if c.Range(0, 4, "odd") == 0 {
		s = []string{"", "1/3", "1e400", "0x10", "1_000", "inf", "NaN", "-0", "2.50", " 1"}[c.Range(0, 9, "string")]
	}
	return task{fmt.Sprintf("%v of %T and back", s, in), func() string {
		var p string
		err := conv.AnyTo(in, &p)
		r := ""
		if b, isa := in.(*big.Rat); isa {
			r = conv.BigRatToNormalizedString(b)
		}
		return fmt.Sprint(p, err, r, fromString[int](s), fromString[int8](s), fromString[uint64](s), fromString[float32](s), fromString[float64](s), fromString[*big.Int](s), fromString[*big.Float](s), fromString[*big.Rat](s))
	}}
}

func dec(c *vt.C, label string) math.Decimal {
	d := vt.DrawDec(c.T, label)
	return math.MustDecimal(d.Val, d.Scale, c.Bool(label+".normalized"))
}

func decimals(c *vt.C) task {
	a, b, n := dec(c, "a"), dec(c, "b"), uint(c.Range(0, 20, "parts"))
	return task{fmt.Sprintf("decimals %s %s", a, b), func() string {
		x, y := a, b
		s1, s2 := math.AdjustDecimalFormat(a, b)
		sum, e1 := a.Add(b)
		diff, e2 := a.Sub(b)
		prod, e3 := a.Mul(b)
		quo, e4 := a.Div(b)
		e5 := math.AdjustDecimalScale(&x, &y)
		q, r, e6 := a.DivIntQuoRem(n)
		parts, e7 := a.DivIntAdd(n)
		back, e8 := math.StringToDecimal(a.String())
		res := fmt.Sprint(s1, s2, sum, e1, diff, e2, prod, e3, quo, e4, x, y, e5, q, r, e6, parts, e7, back, e8, a.Cmp(b), a.Sign(), a.Precision(), a.Negate(), a.MagnitudeLessThanOne())
		for i := range parts {
			parts[i] = math.Decimal{}
		}
		return res
	}}
}

func bigOps[T interface {
	comparable
	constraint.BigOps[T]
}](c *vt.C) task {
	typ := reflect.TypeFor[T]()
	a, b := convx.Draw(c.T, typ, "a").(T), convx.Draw(c.T, typ, "b").(T)
	for _, v := range []any{a, b} { // they panic
		if f, isa := v.(*big.Float); isa && f.IsInf() {
			return decimals(c)
		}
	}
	return task{fmt.Sprintf("calculations with %v %v of %T", a, b, a), func() string {
		var q, r T
		e1 := math.DivBigOps(a, b, &q)
		e2 := math.DivBigOps(b, a, &r)
		res := bigString(any(q), e1) + bigString(any(r), e2)
		res += bigString(any(copied(math.MaxCmp(a, b))), nil) + bigString(any(copied(math.MinCmp(a, b))), nil)
		for _, f := range []func(iter.Iter[T]) iter.Iter[T]{stream.SumBigOps[T], stream.AvgBigOps[T], stream.AbsBigOps[T], stream.MaxCmp[T], stream.SortCmp[T]} {
			it := f(iter.Of(a, b, a, b, b))
			for {
				v, err := it.Next()
				if err != nil {
					res += fmt.Sprint(err)
					break
				}
				res += bigString(any(copied(v)), nil)
			}
		}
		return res
	}}
}

func copied[T any](v T) T {
	switch b := any(v).(type) {
	case *big.Int:
		return any(new(big.Int).Set(b)).(T)
	case *big.Rat:
		return any(new(big.Rat).Set(b)).(T)
	case *big.Float:
		return any(new(big.Float).Copy(b)).(T)
	}
	return v
}

func integers[T constraint.SignedInteger](c *vt.C) task {
	typ := reflect.TypeFor[T]()
	a, b := convx.Draw(c.T, typ, "a").(T), convx.Draw(c.T, typ, "b").(T)
	return task{fmt.Sprintf("calculations with %d %d of %T", a, b, a), func() string {
		sum, diff, prod, abs, quo := b, b, b, b, b
		e1, e2, e3, e4, e5 := math.AddInt(a, &sum), math.SubInt(a, &diff), math.Mul(a, &prod), math.Abs(&abs), math.Div(a, b, &quo)
		r := math.OfRange(min(a, b), math.Closed, max(a, b), math.Open, min(a, b))
		e6 := r.SetValue(a)
		avg, e7 := stream.AvgInt(iter.Of(a, b, a)).Next()
		return fmt.Sprint(sum, e1, diff, e2, prod, e3, abs, e4, quo, e5, r.GetValue(), e6, avg, e7, math.CmpOrdered(a, b), math.MaxOrdered(a, b))
	}}
}

func text(v mj.Value) string {
	var runes []rune
	err := write.Write(v, writer.OfSliceWriter(&runes))
	return fmt.Sprint(jsonx.Of(v), len(runes), err)
}

func documents(c *vt.C) task {
	doc := jsonx.Text(c.T, jsonx.DrawDoc(c.T, 3, "doc"))
	if c.Range(0, 3, "broken") == 0 {
		doc = jsonx.Mutate(c.T, doc)
	}
	return task{fmt.Sprintf("document %q", doc), func() string {
		v, err := parse.Parse(strings.NewReader(doc))
		res := ""
		if err == nil {
			res = text(v)
			switch v.Type() { // it is ours
			case mj.Object:
				clear(v.AsMap())
			case mj.Array:
				clear(v.AsSlice())
			}
		}
		it := parse.Iterate(strings.NewReader(doc))
		for {
			e, err := it.Next()
			if err != nil {
				return res + fmt.Sprint(err)
			}
			res += text(e)
		}
	}}
}

func values(c *vt.C) task {
	v := jsonx.Build(jsonx.DrawDoc(c.T, 3, "value"))
	g := v.ToAny()
	path := []string{".a", "[0]", "a.b", "key[1]", "[1].a", "x", ".", "a..b"}[c.Range(0, 7, "path")]
	f, ferr := mj.ParsePath(path)
	return task{fmt.Sprintf("value %v, path %s", jsonx.Of(v), path), func() string {
		res := text(v)
		if ferr == nil {
			e, err := f(v)
			res += fmt.Sprint(jsonx.Of(e), err)
		}
		_, err := mj.ParsePath(path)
		res += fmt.Sprint(err)
		switch a := v.ToAny().(type) { // a copy
		case map[string]any:
			res += fmt.Sprint(len(a))
			clear(a)
		case []any:
			res += fmt.Sprint(len(a))
			clear(a)
		}
		switch a := g.(type) {
		case map[string]any:
			w, err := mj.ToValue(a)
			res += fmt.Sprint(jsonx.Of(w), err)
		case []any:
			w, err := mj.ToValue(a)
			res += fmt.Sprint(jsonx.Of(w), err)
		}
		return res
	}}
}

func all[T any](it iter.Iter[T]) string {
	var sb strings.Builder
	for n := 0; n < 100000; n++ {
		v, err := it.Next()
		fmt.Fprintf(&sb, "%v %v,", v, err)
		if err != nil {
			break
		}
	}
	return sb.String()
}

func texts(c *vt.C) task {
	var sb strings.Builder
	for n := c.Range(0, 12, "pieces"); n > 0; n-- {
		sb.WriteString(rapid.SampledFrom([]string{"a", "bc,", "\n", "\r", "\r\n", "é", "€", "𝄞", "\xff", "\xe2\x82", "Snake", "_x", "Ä"}).Draw(c.T, "piece"))
	}
	s := sb.String()
	fault := errors.New("fault")
	return task{fmt.Sprintf("text %q", s), func() string {
		var b, l bytes.Buffer
		rs, ls := writer.OfIOWriterAsRunes(&b), writer.OfIOWriterAsLines(&l)
		e1, e2, e3 := rs.Write([]rune(s)...), ls.Write(s, s), writer.OfIOWriterAsStrings(mio.NewErrorWriter(len(s)/2, fault)).Write(s)
		return all(iter.OfReader(strings.NewReader(s))) + all(iter.OfReaderAsRunes(strings.NewReader(s))) + all(iter.OfStringAsRunes(s)) + all(iter.OfReaderAsLines(mio.NewErrorReader([]byte(s), fault))) +
			all(iter.OfStringAsLines(s)) + all(iter.OfCSV(strings.NewReader(s))) + fmt.Sprintf("%q %q %v %v %v", b.String(), l.String(), e1, e2, e3) +
			funcs.SnakeToCamelCase(s) + " " + funcs.CamelCaseToSnakeCase(s)
	}}
}

func pipelines(c *vt.C) task {
	p := sx.DrawPipeline(c, 4, sx.Kinds{Eager: true, Reduce: true, Stateful: true, Errors: true, Shared: true})
	s := sx.DrawSeq(c, 12, true, "data")
	return task{fmt.Sprintf("%s of %s", p, s), func() string {
		calls := 0
		return all(p.Apply(s.Source(&calls)))
	}}
}

// elements are streams of a slice that all share
func elements(c *vt.C) task {
	vals := sx.DrawVals(c, 12, "vals")
	par := stream.Parallel(stream.Map(func(i int) int { return i * 3 }), stream.PInfo{N: c.Range(1, 4, "threads")})
	k := uint(c.Range(0, 5, "count"))
	return task{fmt.Sprintf("streams of %v", vals), func() string {
		src := func() iter.Iter[int] { return iter.OfSlice(vals) }
		m := map[bool]int{}
		it := stream.ReduceToMap(stream.Map(func(i int) tuple.Two[bool, int] { return tuple.Of2(i > 0, i) })(src()))
		if r, err := it.Next(); err == nil {
			m = r
		}
		sorted := stream.SortOrdered(src())
		res := all(par(src())) + all(stream.Distinct(src())) + all(stream.Duplicate(src())) + all(sorted) + all(stream.Reverse(src())) + all(stream.Max(src())) + all(stream.Sum(src())) +
			all(stream.Limit[int](k)(stream.Skip[int](k)(src()))) + all(stream.Count(src())) + all(stream.Abs(src())) + fmt.Sprint(m[true], m[false]) + all(iter.Concat(src(), iter.OfEmpty[int](), src(), iter.OfOne(1)))
		slc, err := stream.ReduceToSlice(src()).Next()
		res += fmt.Sprint(slc, err)
		clear(slc[:cap(slc)])
		clear(m)
		return res
	}}
}

func slices(c *vt.C) task {
	vals := sx.DrawVals(c, 10, "vals")
	x := c.Range(-2, 10, "x")
	nested := [][]int{vals, nil, vals[:len(vals)/2]}
	mp := map[int]string{}
	var anys []any
	for _, v := range vals {
		mp[v] = fmt.Sprint(v)
		anys = append(anys, v)
	}
	ptrs := []*int{new(int), new(int)}
	return task{fmt.Sprintf("helpers of %v", vals), func() string {
		cp := funcs.SliceCopy(vals)
		rm := funcs.SliceRemove(vals, x, funcs.ALL)
		flat := funcs.SliceFlatten[int](nested)
		uniq := funcs.SliceUniqueValues(vals)
		sort.Ints(uniq)
		set := funcs.SliceToMap(vals)
		keys := funcs.MapKeysToSlice(mp)
		sort.Ints(keys)
		sorted := funcs.MapSortOrdered(mp)
		cs, err := funcs.ConvertToSlice[int]("x", anys)
		var own []tuple.Two[int, []int]
		for i, v := range vals {
			funcs.OrderedTuple2SliceAdd(&own, v, i)
		}
		at, found := funcs.OrderedTuple2Search(own, x)
		funcs.OrderedTuple2SliceRemoveKey(&own, x)
		un := funcs.SliceRemoveUncomparable(ptrs, ptrs[1])
		res := fmt.Sprint(cp, rm, flat, uniq, len(set), keys, sorted, cs, err, own, at, found, len(un), funcs.SliceIndex(vals, x, 99), funcs.MapIndex(mp, x, "none"), funcs.SliceRemove(vals, x),
			funcs.SliceSortBy(funcs.SliceCopy(vals), func(a, b int) bool { return a > b }), funcs.SliceReverse(funcs.SliceCopy(vals)))
		clear(cp)
		clear(rm)
		clear(flat[:cap(flat)])
		clear(uniq)
		clear(set)
		clear(keys)
		clear(sorted)
		clear(cs)
		return res
	}}
}

type inner struct {
	A int
	b string
	C *float64
}

func types(c *vt.C) task {
	v := []any{1, int8(2), "x", 2.5, inner{1, "b", nil}, &inner{2, "c", nil}, []int{1}, map[string]int{"a": 1}, (*int)(nil), big.NewInt(5), struct{}{}, [2]bool{}, errors.New("e"), union.Of(5), ptrTo(ptrTo(7))}[c.Range(0, 14, "value")]
	return task{fmt.Sprintf("type of %T", v), func() string {
		rv := reflect.ValueOf(v)
		rt := rv.Type()
		res := fmt.Sprint(mreflect.DerefType(rt), mreflect.DerefTypeMaxOnePtr(rt), mreflect.IsBigPtr(rt), mreflect.IsNumeric(rt), mreflect.IsSignedInteger(rt), mreflect.NumPointers(rt), mreflect.IsNillable(rt), mreflect.IsPrimitive(rt),
			mreflect.TypeToBaseType(rt), mreflect.IsNil(rv), mreflect.TypeOf(rv), mreflect.TypeAssert(rv, reflect.TypeFor[int](), "msg"), ureflect.GetMaybeType(rt), funcs.IsNilValue(v))
		if mreflect.DerefType(rt).Kind() == reflect.Struct {
			fs := mreflect.FieldsByName(rt)
			for _, k := range vt.SortedKeys(fs) {
				res += k + fs[k].Type.String()
			}
			clear(fs)
		}
		var m union.Maybe[int]
		e1 := ureflect.SetMaybeValue(reflect.ValueOf(&m), reflect.ValueOf(5))
		u := union.Of2T[int, string](4)
		u.SetU("x")
		r := union.OfResultError(3, error(nil))
		return res + fmt.Sprint(m, e1, u, r, union.Of(v), tuple.Of3(1, "a", v != nil))
	}}
}

func ptrTo[T any](v T) *T { return &v }

func functions(c *vt.C) task {
	k := c.Range(-5, 5, "k")
	pred := funcs.And(funcs.Not(funcs.In(k, k+1)), funcs.Or(funcs.LessThan(k), funcs.GreaterThanEqual(k+3), funcs.Equal(k)), funcs.IsNonNegative[int]())
	comp := funcs.Compose(func(i int) int { return i + k }, func(i int) int { return i * 2 })
	supplier := funcs.SupplierOf(k)
	return task{fmt.Sprintf("functions with %d", k), func() string {
		res := ""
		for i := -8; i < 9; i++ {
			res += fmt.Sprint(pred(i), comp(i))
		}
		cached := funcs.SupplierCached(func() int { return k })
		funcs.TryTo(func() { panic(k) }, func(v any) { res += fmt.Sprint(v) }, func() { res += "closed" })
		return res + fmt.Sprint(supplier(), cached(), cached(), funcs.Ternary(k > 0, 1, 2))
	}}
}

func generated(c *vt.C) task {
	n := c.Range(1, 4, "names")
	str := code.OfScalarType(code.String)
	return task{fmt.Sprintf("types of code with %d names", n), func() string {
		names := make([]string, n)
		for i := range names {
			names[i] = fmt.Sprint("n", i)
		}
		e := code.OfEnumType("E", str, names)
		m := code.OfMapType(str, code.OfListType(e))
		res := fmt.Sprint(e.Typ, e.Names, m.Typ, m.KeyType.Get() == str, code.OfArrayType(m, []uint{1, 2}).ArrayBounds)
		clear(names)
		return res
	}}
}

// events of a registry and requests of a multiplexer that all share
func events(c *vt.C) task {
	var reg event.Registry[int, string]
	mux := &rest.ServeMux{}
	for n := c.Range(0, 4, "receivers"); n > 0; n-- {
		tag := fmt.Sprint("r", n)
		reg.Register(c.Range(0, 3, "id"), event.ReceiverFunc[string](func(s string) string { return s + tag }))
		mux.MustHandle("GET", fmt.Sprintf("^/%d/(.*)$", n%3), rest.HandlerFunc(nil))
	}
	path := fmt.Sprintf("/%d/abc", c.Range(0, 3, "path"))
	method := []string{"POST", "PUT"}[c.Range(0, 1, "method")]
	return task{"events and requests", func() string {
		rec := httptest.NewRecorder()
		mux.ServeHTTP(rec, httptest.NewRequest(method, path, nil))
		return reg.Send("x") + fmt.Sprint(rec.Code, rec.Body)
	}}
}

var tasks = []func(*vt.C) task{conversions, conversions, stringConversions, decimals, decimals, bigOps[*big.Int], bigOps[*big.Float], bigOps[*big.Rat], integers[int8], integers[int], integers[int64], documents, documents, values,
	texts, texts, pipelines, pipelines, elements, slices, types, functions, generated, events}

// TestThreads runs tasks one after another in different orders, then by several threads at once
func TestThreads(t *testing.T) {
	vt.Check(t, 700, "up to 6 calls of functions of all packages, done twice one after another in different orders, and before or after that by 2 to 4 threads that share their arguments, under the race detector; non-trivial if of at least 2 calls", func(c *vt.C) {
		var ts []task
		for n := c.Range(1, 6, "tasks"); n > 0; n-- {
			k := c.Range(0, len(tasks)-1, "task")
			ts = append(ts, tasks[k](c))
			c.Class("%s", strings.SplitN(ts[len(ts)-1].name, " ", 2)[0])
		}
		// Threads come first now and then, when nothing has been cached by earlier calls
		threads := c.Range(2, 4, "threads")
		step := c.Range(0, len(ts)-1, "step")
		var got [][]string
		concurrently := func() {
			got = make([][]string, threads)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for th := range threads {
				wg.Add(1)
				got[th] = make([]string, len(ts))
				go func() {
					defer wg.Done()
					<-start
					for i := range ts {
						k := (i + th*step) % len(ts)
						got[th][k] = ts[k].do()
					}
				}()
			}
			close(start)
			wg.Wait()
		}
		first := c.Bool("threads.first")
		if first {
			concurrently()
		}
		want := make([]string, len(ts))
		for i, x := range ts {
			want[i] = x.do()
		}
		for i := range ts {
			k := len(ts) - 1 - i
			if again := ts[k].do(); again != want[k] {
				c.Fatalf("%s: the first time %s, later %s", ts[k].name, want[k], again)
			}
		}
		if !first {
			concurrently()
		}
		for _, g := range got {
			for k := range ts {
				if g[k] != want[k] {
					c.Fatalf("%s: alone %s, in one of several threads %s", ts[k].name, want[k], g[k])
				}
			}
		}
		if len(ts) >= 2 {
			c.NonTrivial("%s and %d others by %d threads", ts[0].name, len(ts)-1, threads)
		}
	})
}
