package c32

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	mj "github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"
	mio "github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/math"
	mreflect "github.com/bantling/micro/reflect"
	"github.com/bantling/micro/rest"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"
	"verif/harness/convx"
	"verif/harness/jsonx"
	sx "verif/harness/streamx"
	"verif/harness/vt"
)

// try is what a call results in, or panics with
func try(f func() any) (res string) {
	if v, p := vt.Panics(func() { res = fmt.Sprint(f()) }); p {
		return fmt.Sprint("panic ", v)
	}
	return
}

func unsigned[T constraint.UnsignedInteger](c *vt.C) task {
	typ := reflect.TypeFor[T]()
	a, b := convx.Draw(c.T, typ, "a").(T), convx.Draw(c.T, typ, "b").(T)
	return task{fmt.Sprintf("calculations with %d %d of %T", a, b, a), func() string {
		sum, diff, prod, abs, quo := b, b, b, b, b
		e1, e2, e3, e4, e5 := math.AddUint(a, &sum), math.SubUint(a, &diff), math.Mul(a, &prod), math.Abs(&abs), math.Div(a, b, &quo)
		r := math.OfRange(min(a, b), math.Open, max(a, b), math.Closed, max(a, b))
		e6 := r.SetValue(a)
		lo, m1 := r.GetMin()
		hi, m2 := r.GetMax()
		avg, e7 := stream.AvgUint(iter.Of(a, b, a)).Next()
		return fmt.Sprint(sum, e1, diff, e2, prod, e3, abs, e4, quo, e5, r.GetValue(), e6, lo, m1, hi, m2, avg, e7, math.CmpOrdered(a, b), math.MinOrdered(a, b), all(stream.Min(iter.Of(b, a))))
	}}
}

func floats[T constraint.Float](c *vt.C) task {
	typ := reflect.TypeFor[T]()
	a, b := convx.Draw(c.T, typ, "a").(T), convx.Draw(c.T, typ, "b").(T)
	x, y := complex(float64(a), float64(b)), complex(float64(b), float64(a))
	return task{fmt.Sprintf("calculations with %v %v of %T", a, b, a), func() string {
		abs, quo := b, b
		e1, e2 := math.Abs(&abs), math.Div(a, b, &quo)
		r := math.OfRange(min(a, b), math.Closed, max(a, b), math.Closed, a)
		e3 := r.SetValue(b)
		return fmt.Sprint(abs, e1, quo, e2, r.GetValue(), e3, math.CmpComplex(x, y), math.MinComplex(x, y), math.MaxComplex(x, y), math.MinOrdered(a, b), funcs.SliceSortComplex([]complex128{x, y, x, 0}),
			all(stream.SortComplex(iter.Of(y, x))), all(stream.SortOrdered(iter.Of(b, a, b))), len(funcs.MapSortComplex(map[complex128]int{x: 1, y: 2})))
	}}
}

func musts(c *vt.C) task {
	typ := []reflect.Type{reflect.TypeFor[int64](), reflect.TypeFor[uint64](), reflect.TypeFor[float64](), reflect.TypeFor[*big.Int](), reflect.TypeFor[*big.Float](), reflect.TypeFor[*big.Rat](), reflect.TypeFor[int8](), reflect.TypeFor[float32]()}[c.Range(0, 7, "type")]
	in := convx.Draw(c.T, typ, "in")
	return task{fmt.Sprintf("%v of %T to all types", in, in), func() string {
		var a int8
		var b uint16
		var d float32
		var e *big.Int
		var f *big.Float
		var g *big.Rat
		var h string
		var i int64
		e1, e2, e3, e4, e5, e6, e7, e8 := conv.AnyTo(in, &a), conv.AnyTo(in, &b), conv.AnyTo(in, &d), conv.AnyTo(in, &e), conv.AnyTo(in, &f), conv.AnyTo(in, &g), conv.AnyTo(in, &h), conv.ReflectTo(reflect.ValueOf(in), reflect.ValueOf(&i))
		return fmt.Sprint(a, e1, b, e2, d, e3, h, e7, i, e8) + bigString(e, e4) + bigString(f, e5) + bigString(g, e6)
	}}
}

func maps(c *vt.C) task {
	vals := sx.DrawVals(c, 10, "vals")
	x := c.Range(-2, 10, "x")
	anys := map[any]any{}
	shared := map[int]string{}
	for _, v := range vals {
		anys[v] = fmt.Sprint(v)
		shared[v] = fmt.Sprint(v)
	}
	return task{fmt.Sprintf("mappings of %v", vals), func() string {
		var (
			m    map[int]string
			m2   map[int]map[bool]int
			ms   map[int][]int
			m2s  map[bool]map[int][]int
			list []tuple.Two[int, []int]
			ptrs = []*int{new(int), new(int), new(int)}
			lp   []tuple.Two[int, []*int]
		)
		for i, v := range vals {
			funcs.MapSet(&m, v, fmt.Sprint(i))
			funcs.Map2Set(&m2, v, i%2 == 0, i)
			funcs.MapSliceAdd(&ms, v%4, v)
			funcs.Map2SliceAdd(&m2s, i%2 == 0, v, i)
			funcs.OrderedTuple2SliceAdd(&list, v%4, v)
			funcs.OrderedTuple2SliceAdd(&lp, v%4, ptrs[i%3])
		}
		funcs.MapUnset(m, x)
		funcs.Map2Unset(m2, x, true)
		if ms != nil {
			funcs.MapSliceRemove(ms, x%4, x)
			funcs.MapSliceRemoveUncomparable(ms, 9, x)
			funcs.Map2SliceRemove(m2s, true, x, 0)
			funcs.OrderedTuple2SliceRemoveValue(&list, x%4, x, funcs.ALL)
			funcs.OrderedTuple2SliceRemoveUncomparable(&lp, x%4, ptrs[0])
		}
		n := 0
		for _, t := range lp {
			n += len(t.U)
		}
		cm, err := funcs.ConvertToMap[int, string]("x", anys)
		cs, err2 := funcs.ConvertToSlice2[int]("x", []any{[]any{1, x}, []any{}})
		res := fmt.Sprint(m, m2, ms, m2s, list, n, cm, err, cs, err2, funcs.MapTest(m, x), funcs.Map2Test(m2, x, true), funcs.MapSortBy(shared, func(a, b int) bool { return a > b }), funcs.SliceToMapBy(vals, func(i int) int { return i % 3 }),
			try(func() any { return funcs.MustConvertToSlice[string]("y", []any{1}) }))
		clear(cm)
		for k := range ms {
			clear(ms[k][:cap(ms[k])])
		}
		return res + fmt.Sprint(funcs.SliceOf(vals...))
	}}
}

func writers(c *vt.C) task {
	data := make([]byte, c.Range(0, 40, "bytes"))
	for i := range data {
		data[i] = byte(i*7 + len(data))
	}
	k := c.Range(0, len(data), "room")
	fault := errors.New("fault")
	return task{fmt.Sprintf("%d bytes written and read", len(data)), func() string {
		var b bytes.Buffer
		w := writer.OfIOWriterAsBytes(&b)
		e1 := w.Write(data...)
		ew := mio.NewErrorWriter(k, fault)
		e2 := writer.OfIOWriterAsBytes(ew).Write(data...)
		m := map[byte]int{}
		mw := writer.OfMapWriter(m)
		var slc []byte
		sw := writer.OfSliceWriter(&slc)
		for i, x := range data {
			mw.Write(tuple.Of2(x, i))
			sw.Write(x)
		}
		rest, e3 := io.ReadAll(mio.NewErrorReader(data, fault))
		res := fmt.Sprint(b.Bytes(), e1, ew.Output(), e2, m, slc, rest, e3)
		clear(rest)
		clear(slc)
		return res
	}}
}

func sources(c *vt.C) task {
	vals := sx.DrawVals(c, 8, "vals")
	mp := map[int]int{}
	for i, v := range vals {
		mp[v] = i
	}
	s := strings.Repeat("é\r\nx\n", c.Range(0, 4, "lines"))
	return task{fmt.Sprintf("iterators of %v", vals), func() string {
		var keys []int
		for it := iter.OfMap(mp); ; {
			t, err := it.Next()
			if err != nil {
				break
			}
			keys = append(keys, t.T, t.U)
		}
		sort.Ints(keys)
		inf := iter.InfiniteIterGen(func(i int) int { return 3*i + 1 }, 5)
		fib := iter.FibonnaciIterGen()
		res := fmt.Sprint(keys)
		for range 12 {
			a, e1 := inf()
			b, e2 := fib()
			res += fmt.Sprint(a, e1, b, e2)
		}
		it := iter.OfSlice(vals)
		for i := range 5 {
			it.Unread(i)
		}
		var seen []int
		buf := make([]int, len(vals)+6)
		_, err := stream.ReduceIntoSlice(buf)(stream.Peek(func(i int) { seen = append(seen, i) })(it)).Next()
		return res + fmt.Sprint(buf, err, seen, iter.Maybe(iter.OfSlice(vals)), iter.Maybe(iter.SetError(iter.OfEmpty[int](), sx.Faults[0]))) +
			all(iter.OfStringAsRunes(s)) + all(iter.OfStringAsLines(s)) + all(stream.AnyMatch(func(i int) bool { return i > 3 })(iter.OfSlice(vals))) + all(stream.NoneMatch(func(i int) bool { return i > 3 })(iter.OfSlice(vals)))
	}}
}

func optionals(c *vt.C) task {
	k := c.Range(-3, 3, "k")
	return task{fmt.Sprintf("unions and tuples with %d", k), func() string {
		a, b, d := union.Of2U[int, string]("x"), union.Of3V[int, string](true), union.Of4W[int, string, bool](2.5)
		res := fmt.Sprint(a, b, d, a.Which(), b.Which(), d.Which())
		b.SetU("u")
		d.SetV(true)
		d.SetU("w")
		b.SetT(k)
		a.SetT(k)
		m, e := union.Empty[int](), union.Present(k)
		err1 := m.SetOrError(k)
		m2 := union.First([]int{k, 1})
		m2.SetEmpty()
		_, err2 := m2.OrError(sx.Faults[0])
		r, f := union.OfResult(k), union.OfError[int](sx.Faults[1])
		v := reflect.ValueOf(&m)
		res += fmt.Sprint(ureflect.MaybeValueIsPresent(v), ureflect.GetMaybeValue(v), ureflect.SetMaybeValueEmpty(v), m)
		t1, t2, t3, t4 := tuple.Of4(k, "a", 2.5, false).Values()
		return res + fmt.Sprint(a, b, d, b.T(), e, err1, m2.OrElse(7), err2, r.Get(), r.HasError(), f.Error(), f.HasResult(), t1, t2, t3, t4, tuple.Of2Same(k, 1), tuple.Of3Same("a", "b", "c"), tuple.Of4Same(1, k, 3, 4)) +
			try(func() any { return d.T() }) + try(func() any { return m2.Get() }) + try(func() any { return f.Get() })
	}}
}

type node struct {
	Name string
	Next *node
	n    int
}

func reflection(c *vt.C) task {
	vs := []any{5, "x", node{"a", nil, 1}, &node{"b", &node{}, 2}, new(*int), []int{1}, big.NewRat(1, 3), int8(3), nodeNo(7), errors.New("e")}
	v := vs[c.Range(0, len(vs)-1, "value")]
	return task{fmt.Sprintf("reflection of %T", v), func() string {
		rv := reflect.ValueOf(v)
		typ := mreflect.DerefType(rv.Type())
		p := reflect.New(typ)
		mreflect.SetPointerValue(p, reflect.Zero(typ))
		res := fmt.Sprint(mreflect.ValueMaxOnePtrType(rv), mreflect.TypeToBaseType(rv.Type()), mreflect.ValueToBaseType(rv).Type(), mreflect.IsUnsignedInteger(typ), mreflect.ResolveValueType(rv).Type(), mreflect.DerefValueMaxOnePtr(rv).Type(), mreflect.DerefValue(rv).IsValid(),
			funcs.Nillable(typ), mreflect.NumPointers(rv.Type()))
		if typ == reflect.TypeFor[node]() {
			res += mreflect.GetFieldByName(typ, "Next").Type.String()
		}
		return res + try(func() any { mreflect.MustTypeAssert(rv, reflect.TypeFor[int](), "m"); return 1 }) + try(func() any { funcs.MustBeNillable(typ); return 2 }) +
			try(func() any { return funcs.MustAssertType[int]("int", v) }) + try(func() any { return funcs.IsNilValue(v) })
	}}
}

type nodeNo int

func combinations(c *vt.C) task {
	k := c.Range(-5, 5, "k")
	f := func(i int) int { return i*3 + k }
	g := func(i int) string { return fmt.Sprint(i) }
	h := func(s string) int { return len(s) + k }
	comp := funcs.Compose4(f, g, h, f)
	long := funcs.Compose10(f, g, h, f, g, h, f, f, g, h)
	tests := []func(int) bool{funcs.LessThanEqual(k), funcs.GreaterThan(k), funcs.IsNegative[int](), funcs.IsPositive[int](), funcs.In(k, k+2, k+4, 1, 2, 3), funcs.Not(funcs.Equal(k))}
	return task{fmt.Sprintf("combinations with %d", k), func() string {
		res := ""
		for i := -8; i < 9; i++ {
			res += fmt.Sprint(comp(i), long(i), funcs.Compose2(f, g)(i), funcs.Compose3(f, g, h)(i), funcs.TernaryResult(i > k, func() int { return f(i) }, func() int { return 0 }))
			for _, t := range tests {
				res += fmt.Sprint(t(i))
			}
		}
		a, b := funcs.MustValue2(k, "x", nil)
		return res + fmt.Sprint(a, b, funcs.FirstValue2(1, k), funcs.SecondValue3(1, k, 3), funcs.ThirdValue3(1, 2, k), funcs.IsNil[any]()(nil), funcs.IsNonNil[[]int]()([]int{})) + try(func() any { return funcs.MustNonZero(k) }) + try(func() any { return funcs.MustNonNilValue([]int(nil)) })
	}}
}

func statements(c *vt.C) task {
	n := uint(c.Range(1, 5, "n"))
	str, i8 := code.OfScalarType(code.String), code.OfScalarType(code.Int8)
	list := code.OfListType(i8)
	one, two := code.OfLitVal(i8, "1"), code.OfVarVal(n%2 == 0, i8, "v", code.Public)
	return task{fmt.Sprintf("code with %d", n), func() string {
		res := ""
		for op := code.Operator(0); op < 30; op++ {
			res += fmt.Sprint(op.IsUnary(), op.IsBinary(), op.IsBoolean())
		}
		for typ := code.Type(0); typ < 40; typ++ {
			res += fmt.Sprint(code.IsScalar(typ), code.IsAggregate(typ))
		}
		access := []code.AccessLevel{code.Public}[:n%2]
		for _, d := range []*code.TypeDef{
			code.OfScalarType(code.String, access...), code.OfScalarType(code.ScalarType(n), access...), code.OfJSONType(access...),
			code.OfArrayType(list, []uint{n, 2}, access...), code.OfEnumType("e", i8, []string{"a"}, access...),
			code.OfListType(str, access...), code.OfMapType(str, list, access...), code.OfMaybeType(list, access...),
			code.OfObjectType(str, "o", []string{"g"}, access...), code.OfSetType(str, access...),
		} {
			val := ""
			if t, err := d.ValueType.OrError(errors.New("no value type")); err == nil {
				val = fmt.Sprint(t.Typ, t.Name)
			}
			if t, err := d.KeyType.OrError(errors.New("no key type")); err == nil {
				val += fmt.Sprint(t.Typ, t.Name)
			}
			res += fmt.Sprint(d.Access, d.Typ, d.Name, d.Names, d.ArrayBounds, val)
			// what is made is the caller's own
			*d = code.TypeDef{Access: 77, Typ: 99, Name: "spoiled", Names: []string{"spoiled"}, ArrayBounds: []uint{99}}
		}
		lit, vari := code.OfLitVal(i8, "1"), code.OfVarVal(true, str, "v", access...)
		exprs := []code.Expr{code.OfUnaryExpr(code.Neg, &lit), code.OfBinaryExpr(code.Add, &lit, &vari), code.OfBooleanExpr(code.And, &vari, &lit)}
		for i := range exprs {
			e := &exprs[i]
			res += fmt.Sprint(e.Op, e.Val1.Value, e.Val2.Present(), e.Val3.Present())
			*e = code.Expr{Op: 99}
		}
		res += fmt.Sprint(lit.Kind, lit.Value, lit.Typ == i8, vari.Kind, vari.Value, vari.Typ == str, vari.Access)
		lit, vari = code.Val{Value: "spoiled"}, code.Val{Value: "spoiled"}
		return res + fmt.Sprint(one.Value, two.Value, two.Kind, two.Access) +
			try(func() any { return code.OfUnaryExpr(code.Neg, &one).Op }) + try(func() any { return code.OfBinaryExpr(code.Add, &one, &two).Op })
	}}
}

func content(c *vt.C) task {
	csv := strings.Repeat("a,b\nc,\"d\ne\"\n", c.Range(0, 3, "rows"))
	doc := jsonx.Text(c.T, jsonx.DrawDoc(c.T, 2, "doc"))
	zip := c.Bool("gzip")
	if c.Bool("broken") {
		doc = jsonx.Mutate(c.T, doc)
	}
	return task{fmt.Sprintf("content %q", doc), func() string {
		req := func(typ, body string) *http.Request {
			var b bytes.Buffer
			r := httptest.NewRequest("POST", "/", nil)
			r.Header.Set("Content-Type", typ)
			if zip {
				w := gzip.NewWriter(&b)
				w.Write([]byte(body))
				w.Close()
				r.Header.Set("Content-Encoding", "gzip")
			} else {
				b.WriteString(body)
			}
			r.Body = io.NopCloser(&b)
			return r
		}
		res := ""
		for it := rest.NegotiateCSVContent(req("text/csv", csv)); ; {
			row, err := it.Next()
			res += fmt.Sprintf("%q %v", row, err)
			if err != nil {
				break
			}
		}
		for it := rest.NegotiateJSONContent(req("application/json", doc)); ; {
			v, err := it.Next()
			if err != nil {
				return res + err.Error()
			}
			var rs []rune
			err = write.Write(v, writer.OfSliceWriter(&rs))
			res += fmt.Sprint(jsonx.Of(v), v.IsDocument(), v.IsNull(), len(rs), err)
		}
	}}
}

// registries and multiplexers of each call
func registries(c *vt.C) task {
	n := c.Range(1, 8, "receivers")
	return task{fmt.Sprintf("%d registrations and removals", n), func() string {
		var reg event.Registry[int, string]
		var mux rest.ServeMux
		var rs []event.Receiver[string]
		for i := range n {
			r := event.Receiver[string](&tagger{fmt.Sprint("t", i)})
			rs = append(rs, r)
			reg.Register(i*5%3, r)
			reg.Register(i%2, r)
			mux.MustHandle("GET", fmt.Sprintf("^/([a-z]+)/%d", i%3), rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { fmt.Fprint(w, i, parts) }))
		}
		res := reg.Send("x")
		reg.Remove(0, rs[0], funcs.ALL)
		reg.RemoveId(2)
		res += reg.Send("y")
		for i := range 4 {
			rec := httptest.NewRecorder()
			mux.ServeHTTP(rec, httptest.NewRequest("GET", fmt.Sprintf("/abc/%d", i), nil))
			res += fmt.Sprint(rec.Code, rec.Body)
		}
		return res
	}}
}

type tagger struct{ tag string }

func (t *tagger) Process(s string) string { return s + t.tag }

// deep documents and long texts
func large(c *vt.C) task {
	n := c.Range(1, 300, "size")
	deep := strings.Repeat(`{"a":[`, n) + strings.Repeat("]}", n)
	wide := "[" + strings.Repeat(`"é\u00e9", -1.5e3,`, n) + "null]"
	return task{fmt.Sprintf("large documents of %d", n), func() string {
		res := ""
		for _, s := range []string{deep, wide, deep[:n]} {
			v, err := parse.Parse(strings.NewReader(s))
			res += fmt.Sprint(err)
			if err == nil {
				res += text(v)
			}
		}
		f, err := mj.ParsePath(strings.Repeat("a[0].", n) + "a")
		if err == nil {
			_, err = f(mj.MustToValue(map[string]any{"a": []any{}}))
		}
		return res + fmt.Sprint(err)
	}}
}

func init() {
	tasks = append(tasks, unsigned[uint8], unsigned[uint64], unsigned[uint], floats[float32], floats[float64], musts, maps, maps, writers, sources, optionals, reflection, reflection, combinations, statements, content, registries, large)
}
