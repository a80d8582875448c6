package c27

import (
	"errors"
	"fmt"
	"math/big"
	goreflect "reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/union"
	ob "verif/harness/other/big"
	ou "verif/harness/other/union"
	"verif/harness/vt"
)

type (
	Bool    bool
	Int     int
	Int8    int8
	Int16   int16
	Int32   int32
	Int64   int64
	Uint    uint
	Uint8   uint8
	Uint16  uint16
	Uint32  uint32
	Uint64  uint64
	Uptr    uintptr
	Float32 float32
	Float64 float64
	Cx64    complex64
	Cx128   complex128
	String  string
	Strings []string
	Map     map[string]int
	Chan    chan int
	Func    func()
	Ptr     *int
	PtrSub  *Sub
	PtrInt8 *Int8
	PtrStr  *string
	PtrStrc *Struct
	PtrBig  *big.Int
	PtrPtr  **int
	PtrSubs **Sub
	PtrTo   *Ptr
	PtrAny  *any
	BigInt  big.Int
	BigPtr  *big.Int
	Iface   interface{ M() }
	Struct  struct {
		A int
		B *Struct
		c string
	}
	Gen[T any] struct{ V T }
	Sub        Int // derived of derived
)

func (Struct) M() {}

// info is a type and what it is
type info struct {
	typ      goreflect.Type
	base     goreflect.Type // of a derived primitive type
	prim     bool
	signed   bool
	unsigned bool
	numeric  bool
	bigPtr   bool
	nillable bool
}

func of[T any]() goreflect.Type { return goreflect.TypeFor[T]() }

// bases is types that are no pointers, and big pointers
var bases []info

func init() {
	add := func(typ, base goreflect.Type, f string) {
		has := func(s string) bool { return strings.Contains(f, s) }
		bases = append(bases, info{typ, base, has("p"), has("s"), has("u"), has("n"), false, has("0")})
	}
	add(of[bool](), nil, "p")
	add(of[Bool](), of[bool](), "p")
	add(of[int](), nil, "psn")
	add(of[Int](), of[int](), "psn")
	add(of[Sub](), of[int](), "psn")
	add(of[int8](), nil, "psn")
	add(of[Int8](), of[int8](), "psn")
	add(of[int16](), nil, "psn")
	add(of[Int16](), of[int16](), "psn")
	add(of[int32](), nil, "psn")
	add(of[rune](), nil, "psn")
	add(of[Int32](), of[int32](), "psn")
	add(of[int64](), nil, "psn")
	add(of[Int64](), of[int64](), "psn")
	add(of[uint](), nil, "pun")
	add(of[Uint](), of[uint](), "pun")
	add(of[uint8](), nil, "pun")
	add(of[byte](), nil, "pun")
	add(of[Uint8](), of[uint8](), "pun")
	add(of[uint16](), nil, "pun")
	add(of[Uint16](), of[uint16](), "pun")
	add(of[uint32](), nil, "pun")
	add(of[Uint32](), of[uint32](), "pun")
	add(of[uint64](), nil, "pun")
	add(of[Uint64](), of[uint64](), "pun")
	add(of[uintptr](), nil, "")
	add(of[Uptr](), nil, "")
	add(of[float32](), nil, "pn")
	add(of[Float32](), of[float32](), "pn")
	add(of[float64](), nil, "pn")
	add(of[Float64](), of[float64](), "pn")
	add(of[complex64](), nil, "p")
	add(of[Cx64](), of[complex64](), "p")
	add(of[complex128](), nil, "p")
	add(of[Cx128](), of[complex128](), "p")
	add(of[string](), nil, "p")
	add(of[String](), of[string](), "p")
	add(of[[]int](), nil, "0")
	add(of[Strings](), nil, "0")
	add(of[[]byte](), nil, "0")
	add(of[[2]int](), nil, "")
	add(of[map[string]any](), nil, "0")
	add(of[Map](), nil, "0")
	add(of[chan int](), nil, "0")
	add(of[Chan](), nil, "0")
	add(of[<-chan int](), nil, "0")
	add(of[chan<- string](), nil, "0")
	add(of[[0]func()](), nil, "")
	add(of[[]**int](), nil, "0")
	add(of[map[Struct]func()](), nil, "0")
	add(of[func()](), nil, "0")
	add(of[Func](), nil, "0")
	add(of[any](), nil, "0")
	add(of[error](), nil, "0")
	add(of[Iface](), nil, "0")
	add(of[struct{}](), nil, "")
	add(of[Struct](), nil, "")
	add(of[Gen[int]](), nil, "")
	add(of[big.Int](), nil, "")
	add(of[big.Float](), nil, "")
	add(of[big.Rat](), nil, "")
	add(of[BigInt](), nil, "")
	add(of[unsafe.Pointer](), nil, "")
	// pairs of types that print alike
	add(alike1(), of[int](), "psn")
	add(alike2(), nil, "")
	add(of[union.Maybe[int]](), nil, "")
	add(of[ou.Maybe[int]](), nil, "")
	add(of[ob.Int](), nil, "")
}

// pointerTo is the info of a pointer
func (i info) pointerTo() info {
	r := info{typ: goreflect.PointerTo(i.typ), nillable: true}
	switch r.typ {
	case of[*big.Int](), of[*big.Float](), of[*big.Rat]():
		r.numeric, r.bigPtr = true, true
	}
	return r
}

// named pointer types
var namedPtrs = map[goreflect.Type]goreflect.Type{}

func init() {
	for _, t := range []goreflect.Type{of[Ptr](), of[PtrSub](), of[PtrInt8](), of[PtrStr](), of[PtrStrc](), of[PtrBig](), of[PtrPtr](), of[PtrSubs](), of[PtrTo](), of[PtrAny]()} {
		namedPtrs[goreflect.PointerTo(t.Elem())] = t
	}
}

func alike1() goreflect.Type {
	type Alike int
	return of[Alike]()
}

func alike2() goreflect.Type {
	type Alike struct{ A int }
	return of[Alike]()
}

var errX = errors.New("x")

// drawBase draws a base type and a settable variable of it, zero or not
func drawBase(c *vt.C) (info, goreflect.Value) {
	i := bases[c.Range(0, len(bases)-1, "type")]
	v := goreflect.New(i.typ).Elem()
	if c.Bool("zero") {
		return i, v
	}
	n := c.Range(1, 100, "value")
	switch i.typ.Kind() {
	case goreflect.Bool:
		v.SetBool(true)
	case goreflect.Int, goreflect.Int8, goreflect.Int16, goreflect.Int32, goreflect.Int64:
		v.SetInt(int64(-n))
	case goreflect.Uint, goreflect.Uint8, goreflect.Uint16, goreflect.Uint32, goreflect.Uint64, goreflect.Uintptr:
		v.SetUint(uint64(n))
	case goreflect.Float32, goreflect.Float64:
		v.SetFloat(float64(n) / 4)
	case goreflect.Complex64, goreflect.Complex128:
		v.SetComplex(complex(float64(n), 1))
	case goreflect.String:
		v.SetString(fmt.Sprint(n))
	case goreflect.Slice:
		v.Set(goreflect.MakeSlice(i.typ, n%3, 5))
	case goreflect.Array:
		if i.typ.Len() > 0 && i.typ.Elem().Kind() == goreflect.Int {
			v.Index(0).SetInt(int64(n))
		}
	case goreflect.Map:
		v.Set(goreflect.MakeMap(i.typ))
	case goreflect.Chan:
		ch := goreflect.MakeChan(goreflect.ChanOf(goreflect.BothDir, i.typ.Elem()), 1)
		v.Set(ch.Convert(i.typ))
	case goreflect.Func:
		v.Set(goreflect.MakeFunc(i.typ, nil))
	case goreflect.Interface:
		switch i.typ {
		case of[any]():
			v.Set(goreflect.ValueOf([]any{n, Int(n), "x", &n, []int{n}, errX, (*int)(nil)}[n%7]))
		case of[error]():
			v.Set(goreflect.ValueOf(errX))
		default:
			v.Set(goreflect.ValueOf(Struct{A: n}))
		}
	case goreflect.Struct:
		if i.typ == of[Struct]() {
			v.Set(goreflect.ValueOf(Struct{A: n}))
		}
	}
	return i, v
}

// chain is a value behind pointers
type chain struct {
	info  info            // of the outermost type
	base  info            // of the innermost type
	inner goreflect.Value // settable innermost variable
	last  goreflect.Value // the pointer to the innermost variable, or nil
	// its type, and if that has a name
	lastTyp goreflect.Type
	named   bool
	val     goreflect.Value
	depth   int
	nilAt   int // level of a nil pointer, 1 being the innermost pointer, or 0
	desc    string
}

func drawChain(c *vt.C) (r chain) {
	r.base, r.inner = drawBase(c)
	r.depth = c.Range(0, 4, "pointers")
	if c.Range(0, 9, "deep") == 0 {
		r.depth = c.Range(5, 40, "pointers")
	}
	r.nilAt = c.Range(1, 9+r.depth, "nil pointer")
	if r.nilAt > r.depth {
		r.nilAt = 0
	}
	r.info, r.val = r.base, r.inner
	for i := 1; i <= r.depth; i++ {
		p := goreflect.New(r.info.typ)
		if i == 1 {
			p = r.inner.Addr()
		}
		p.Elem().Set(r.val)
		if i == r.nilAt {
			p = goreflect.Zero(p.Type())
		}
		r.info = r.info.pointerTo()
		if n := namedPtrs[r.info.typ]; n != nil && c.Bool("named pointer") {
			r.info = info{typ: n, nillable: true}
			p = p.Convert(n)
			r.named = r.named || i == 1
		}
		r.val = p
		if i == 1 {
			r.last, r.lastTyp = p, r.info.typ
		}
	}
	r.desc = fmt.Sprintf("type %v, %v, nil at %d", r.info.typ, r.inner, r.nilAt)
	return
}

func eqType(c *vt.C, desc, what string, got, want goreflect.Type) {
	if got != want {
		c.Fatalf("%s: %s is %v, expected %v", desc, what, got, want)
	}
}

func eqBool(c *vt.C, desc, what string, got, want bool) {
	if got != want {
		c.Fatalf("%s: %s is %v", desc, what, got)
	}
}

// sameValue is true if two values of type T are the same variable or pointer
func sameValue(a, b goreflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.CanAddr() && b.CanAddr() && a.Addr().Pointer() == b.Addr().Pointer() {
		return true
	}
	if a.Kind() == goreflect.Pointer {
		return a.Pointer() == b.Pointer()
	}
	return !a.CanAddr() && !b.CanAddr() && goreflect.DeepEqual(a.Interface(), b.Interface())
}

func TestTypesAndValues(t *testing.T) {
	vt.Check(t, 30000, "types (60, primitive, derived, nillable and others) behind 0 to 4 pointers (also of named pointer types) and sometimes up to 40, values of them, any pointer nil; non-trivial if there is a pointer or a derived type", func(c *vt.C) {
		r := drawChain(c)
		typ, val := r.info.typ, r.val

		// types
		eqType(c, r.desc, "DerefType", reflect.DerefType(typ), r.base.typ)
		one := r.base.typ
		if r.depth > 0 {
			one = r.lastTyp
		}
		eqType(c, r.desc, "DerefTypeMaxOnePtr", reflect.DerefTypeMaxOnePtr(typ), one)
		if n := reflect.NumPointers(typ); n != r.depth {
			c.Fatalf("%s: NumPointers is %d", r.desc, n)
		}
		eqBool(c, r.desc, "IsBigPtr", reflect.IsBigPtr(typ), r.info.bigPtr)
		eqBool(c, r.desc, "IsSignedInteger", reflect.IsSignedInteger(typ), r.info.signed)
		eqBool(c, r.desc, "IsUnsignedInteger", reflect.IsUnsignedInteger(typ), r.info.unsigned)
		eqBool(c, r.desc, "IsNumeric", reflect.IsNumeric(typ), r.info.numeric)
		eqBool(c, r.desc, "IsNillable of the type", reflect.IsNillable(typ), r.info.nillable)
		eqBool(c, r.desc, "IsNillable of the value", reflect.IsNillable(val), r.info.nillable)
		eqBool(c, r.desc, "IsPrimitive of the type", reflect.IsPrimitive(typ), r.info.prim)
		eqBool(c, r.desc, "IsPrimitive of the value", reflect.IsPrimitive(val), r.info.prim)
		eqType(c, r.desc, "TypeToBaseType", reflect.TypeToBaseType(typ), r.info.base)
		if s := reflect.TypeOf(val); s != typ.String() {
			c.Fatalf("%s: TypeOf is %q", r.desc, s)
		}

		// dereferences
		want := r.inner
		if r.nilAt > 0 {
			want = goreflect.Value{}
		}
		if got := reflect.DerefValue(val); !sameValue(got, want) {
			c.Fatalf("%s: DerefValue is %v, expected %v", r.desc, got, want)
		}
		switch {
		case r.depth == 0:
			want = val
		case r.nilAt <= 1:
			want = r.last
		default:
			want = goreflect.Value{}
		}
		if got := reflect.DerefValueMaxOnePtr(val); !sameValue(got, want) {
			c.Fatalf("%s: DerefValueMaxOnePtr is %v, expected %v", r.desc, got, want)
		}
		vtyp := typ
		if r.depth == 1 {
			vtyp = r.base.typ
		} else if r.depth > 1 {
			vtyp = nil
		}
		eqType(c, r.desc, "ValueMaxOnePtrType", reflect.ValueMaxOnePtrType(val), vtyp)

		// nil
		wantNil := r.depth > 0 && r.nilAt == r.depth || r.depth == 0 && r.info.nillable && val.IsNil()
		eqBool(c, r.desc, "IsNil", reflect.IsNil(val), wantNil)

		// base type of a value, or of the value a pointer points to
		bv := reflect.ValueToBaseType(val)
		switch {
		case r.depth == 0 && r.base.base != nil:
			eqType(c, r.desc, "type of ValueToBaseType", bv.Type(), r.base.base)
			if !goreflect.DeepEqual(bv.Interface(), val.Convert(r.base.base).Interface()) {
				c.Fatalf("%s: ValueToBaseType is %v", r.desc, bv)
			}
		case r.depth == 1 && r.base.base != nil:
			eqType(c, r.desc, "type of ValueToBaseType", bv.Type(), goreflect.PointerTo(r.base.base))
			if bv.Pointer() != val.Pointer() {
				c.Fatalf("%s: ValueToBaseType points elsewhere", r.desc)
			}
		case r.depth == 1 && r.named && r.base.prim && bv.Type() == goreflect.PointerTo(r.base.typ):
			// the underlying type of a named pointer type
			if bv.Pointer() != val.Pointer() {
				c.Fatalf("%s: ValueToBaseType points elsewhere", r.desc)
			}
		default:
			if bv.Type() != typ || bv.Type().Comparable() && typ.Kind() == goreflect.Pointer && bv.Pointer() != val.Pointer() {
				c.Fatalf("%s: ValueToBaseType is %v of type %v", r.desc, bv, bv.Type())
			}
		}

		// as an element of []any, the value has its real type
		elem := goreflect.ValueOf([]any{val.Interface()}).Index(0)
		direct := goreflect.ValueOf(val.Interface())
		if got := reflect.ResolveValueType(elem); got.IsValid() != direct.IsValid() || got.IsValid() && got.Type() != direct.Type() {
			c.Fatalf("%s: ResolveValueType is %v", r.desc, got)
		}
		if got := reflect.ResolveValueType(val); r.base.typ.Kind() != goreflect.Interface && (got.Type() != typ || got.CanSet() != val.CanSet()) {
			c.Fatalf("%s: ResolveValueType is %v", r.desc, got)
		}

		// type assertion, directly and as an element
		o, _ := drawBase(c)
		for _, b := range bases {
			if b.typ != r.base.typ && b.typ.String() == r.base.typ.String() && c.Bool("alike") {
				o = b
			}
		}
		for i := c.Range(0, 2, "other pointers"); i > 0; i-- {
			o = o.pointerTo()
		}
		for k, v := range []goreflect.Value{val, elem} {
			for _, to := range []goreflect.Type{typ, o.typ} {
				var err error
				if e, p := vt.Panics(func() { err = reflect.TypeAssert(v, to, []string{"prefix"}[:k]...) }); p {
					c.Fatalf("%s as %v: panics with %v", r.desc, to, e)
				}
				real := v
				if v.Kind() == goreflect.Interface {
					real = v.Elem()
				}
				ok := real.IsValid() && real.Type() == to
				if (err == nil) != ok {
					c.Fatalf("%s as %v: TypeAssert is %v", r.desc, to, err)
				}
				if err != nil && strings.HasPrefix(err.Error(), "prefix: ") != (k == 1) {
					c.Fatalf("%s as %v: TypeAssert is %v", r.desc, to, err)
				}
				if e, p := vt.Panics(func() { reflect.MustTypeAssert(v, to) }); p == ok {
					c.Fatalf("%s as %v: MustTypeAssert panics: %v", r.desc, to, e)
				}
			}
		}

		// the same in a struct field that is not exported, of which Go lets no value out
		box := goreflect.New(goreflect.StructOf([]goreflect.StructField{{Name: "f", PkgPath: "p", Type: typ}})).Elem()
		goreflect.NewAt(typ, box.Addr().UnsafePointer()).Elem().Set(val)
		hidden := box.Field(0)
		{
			what := r.desc + ", not exported"
			eqBool(c, what, "IsNillable", reflect.IsNillable(hidden), r.info.nillable)
			eqBool(c, what, "IsPrimitive", reflect.IsPrimitive(hidden), r.info.prim)
			eqBool(c, what, "IsNil", reflect.IsNil(hidden), wantNil)
			eqType(c, what, "ValueMaxOnePtrType", reflect.ValueMaxOnePtrType(hidden), vtyp)
			if s := reflect.TypeOf(hidden); s != typ.String() {
				c.Fatalf("%s: TypeOf is %q", what, s)
			}
			eqType(c, what, "type of ValueToBaseType", reflect.ValueToBaseType(hidden).Type(), bv.Type())
			want, want1 := hidden, hidden
			if r.depth > 0 {
				want = r.inner
			}
			if r.nilAt > 0 {
				want = goreflect.Value{}
			}
			if got := reflect.DerefValue(hidden); got.IsValid() != want.IsValid() || got.IsValid() && (got.Type() != want.Type() || got.Addr().Pointer() != want.Addr().Pointer()) {
				c.Fatalf("%s: DerefValue is %v, expected %v", what, got, want)
			}
			if r.depth > 0 {
				want1 = r.last
				if r.nilAt > 1 {
					want1 = goreflect.Value{}
				}
			}
			if got := reflect.DerefValueMaxOnePtr(hidden); got.IsValid() != want1.IsValid() || got.IsValid() && (got.Type() != want1.Type() || r.depth > 0 && got.Pointer() != want1.Pointer()) {
				c.Fatalf("%s: DerefValueMaxOnePtr is %v, expected %v", what, got, want1)
			}
			real := hidden
			if hidden.Kind() == goreflect.Interface {
				real = hidden.Elem()
			}
			if got := reflect.ResolveValueType(hidden); got.IsValid() != real.IsValid() || got.IsValid() && (got.Type() != real.Type() || got.CanAddr() != real.CanAddr()) {
				c.Fatalf("%s: ResolveValueType is %v", what, got)
			}
			types := []goreflect.Type{typ, o.typ}
			if real.IsValid() {
				types = append(types, real.Type())
			}
			for _, to := range types {
				if err := reflect.TypeAssert(hidden, to); (err == nil) != (real.IsValid() && real.Type() == to) {
					c.Fatalf("%s as %v: TypeAssert is %v", what, to, err)
				}
			}
		}

		// set through the pointers
		nb := bases[c.Range(0, len(bases)-1, "set type")]
		nv := goreflect.Zero(nb.typ)
		if c.Bool("same type") || !nv.CanConvert(r.base.typ) {
			nv = goreflect.Zero(r.base.typ)
		}
		if r.depth > 0 && r.nilAt == 0 {
			reflect.SetPointerValue(val, nv)
			if !r.inner.IsZero() && !(r.base.typ.Kind() == goreflect.Interface || nv.Type().Kind() != r.base.typ.Kind()) {
				c.Fatalf("%s: SetPointerValue to the zero value of %v leaves %v", r.desc, nv.Type(), r.inner)
			}
		} else if r.val.Kind() == goreflect.Interface {
			// may hold a pointer
		} else if _, p := vt.Panics(func() { reflect.SetPointerValue(goreflect.ValueOf(val.Interface()), nv) }); !p {
			c.Fatalf("%s: SetPointerValue does not panic", r.desc)
		}
		c.Class("pointers %d nil %v", r.depth, r.nilAt > 0)
		if r.depth > 0 || r.base.base != nil {
			c.NonTrivial("%s", r.desc)
		}
	})
}

func TestInvalid(t *testing.T) {
	vt.Table(t, "the invalid value and nil type", func(each func(string, func(func(string, ...any)))) {
		each("invalid", func(fail func(string, ...any)) {
			var z goreflect.Value
			var nt goreflect.Type
			if reflect.DerefValue(z).IsValid() || reflect.DerefValueMaxOnePtr(z).IsValid() || !reflect.IsNil(z) || !reflect.IsNillable(z) || !reflect.IsNillable(nt) ||
				reflect.IsPrimitive(z) || reflect.ValueToBaseType(z).IsValid() || reflect.ValueMaxOnePtrType(z) != nil || reflect.ResolveValueType(z).IsValid() ||
				reflect.TypeAssert(z, of[int]()) == nil || reflect.TypeOf(z) != z.String() {
				fail("the invalid value is not handled")
			}
		})
	})
}

func TestFields(t *testing.T) {
	vt.Check(t, 8000, "struct types of up to 8 fields of any type, and other types; non-trivial if of at least two fields", func(c *vt.C) {
		if c.Range(0, 3, "no struct") == 0 {
			i := bases[c.Range(0, len(bases)-1, "type")]
			n := 0
			if i.typ.Kind() == goreflect.Struct {
				n = i.typ.NumField()
			}
			if m := reflect.FieldsByName(i.typ); len(m) != n || n == 0 && m != nil {
				c.Fatalf("type %v: fields %v", i.typ, m)
			}
			return
		}
		var fs []goreflect.StructField
		want := map[string]goreflect.Type{}
		tags := map[string]string{}
		stem := ""
		if c.Bool("similar") {
			stem = "N" + vt.DrawStem(c.T, "stem")
		}
		for n := c.Range(0, 8, "fields"); n > 0; n-- {
			i := bases[c.Range(0, len(bases)-1, "type")]
			for p := c.Range(0, 2, "pointers"); p > 0; p-- {
				i = i.pointerTo()
			}
			name := []string{"A", "B", "AB", "Ab", "É", "Foo_Bar", "X1", "Z"}[c.Range(0, 7, "name")]
			if stem != "" {
				name = "N" + vt.DrawSimilar(c.T, stem, "name")
			}
			if want[name] != nil {
				continue
			}
			want[name] = i.typ
			tags[name] = fmt.Sprintf("k:%q", name)
			fs = append(fs, goreflect.StructField{Name: name, Type: i.typ, Tag: goreflect.StructTag(tags[name])})
		}
		typ := goreflect.StructOf(fs)
		got := reflect.FieldsByName(typ)
		if len(got) != len(want) || (got == nil) != (len(want) == 0) {
			c.Fatalf("%v: fields %v", typ, got)
		}
		for name, ft := range want {
			f := got[name]
			sf, _ := typ.FieldByName(name)
			if f.Name != name || f.Type != ft || string(f.Tag) != tags[name] || fmt.Sprint(f.Index) != fmt.Sprint(sf.Index) {
				c.Fatalf("%v: field %s is %v", typ, name, f)
			}
			g := reflect.GetFieldByName(typ, name)
			if !goreflect.DeepEqual(g, sf) {
				c.Fatalf("%v: GetFieldByName(%s) is %v", typ, name, g)
			}
		}
		if e, p := vt.Panics(func() { reflect.GetFieldByName(typ, "Missing") }); !p || !strings.Contains(fmt.Sprint(e), "Missing") {
			c.Fatalf("%v: GetFieldByName(Missing) panics %v with %v", typ, p, e)
		}
		if len(fs) > 1 {
			c.NonTrivial("%v", typ)
		}
	})
}

type (
	inner struct {
		A int
		b string
	}
	Outer struct {
		inner
		B int
	}
	Named struct{ A, C string }
	Twice struct{ Named }
	Both  struct {
		inner
		Named
	}
	ByPtr struct {
		*Named
		D []int
	}
	Shadow struct {
		Twice
		A bool
	}
	Deep struct {
		*Outer
		Twice
		C chan int
	}
	IfaceIn struct {
		error
		fmt.Stringer
		X int
	}
	Rec struct {
		*Rec
		next *Rec
		Val  int
	}
	Generic[T any] struct{ T T }
	GenericIn      struct {
		Generic[int]
		*Generic2[string]
		U int
	}
	Generic2[T any] struct{ V T }
	Nested          struct {
		In struct{ A, E int }
		B  int
	}
)

// TestEmbedded looks up the fields of structs that embed others: the fields of those are not fields of their own
func TestEmbedded(t *testing.T) {
	vt.Table(t, "the fields of struct types with embedded fields, shadowed names and fields that are not exported", func(each func(string, func(func(string, ...any)))) {
		for _, typ := range []goreflect.Type{of[inner](), of[Outer](), of[Named](), of[Twice](), of[Both](), of[ByPtr](), of[Shadow](), of[Deep](), of[IfaceIn](), of[Rec](),
			of[Generic[int]](), of[Generic[*Deep]](), of[GenericIn](), of[Nested](), of[struct{ Deep }]()} {
			each(typ.String(), func(fail func(string, ...any)) {
				m := reflect.FieldsByName(typ)
				if len(m) != typ.NumField() {
					fail("%v: fields %v", typ, m)
				}
				for i := 0; i < typ.NumField(); i++ {
					f := typ.Field(i)
					if !goreflect.DeepEqual(m[f.Name], f) {
						fail("%v: field %s is %v", typ, f.Name, m[f.Name])
					}
					if g := reflect.GetFieldByName(typ, f.Name); !goreflect.DeepEqual(g, f) {
						fail("%v: GetFieldByName(%s) is %v", typ, f.Name, g)
					}
				}
			})
		}
	})
}
