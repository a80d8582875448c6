package c30

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/union"
	"verif/harness/vt"
)

var scalars = []code.ScalarType{code.Bool, code.Uint, code.Uint8, code.Uint16, code.Uint32, code.Uint64, code.Int, code.Int8, code.Int16, code.Int32, code.Int64,
	code.Float, code.Double, code.String, code.UUID, code.Date, code.DateTimeSecs, code.DateTimeMillis, code.DurationDays, code.DurationSecs, code.DurationMillis}
var aggregates = []code.AggregateType{code.JSON, code.Array, code.Enum, code.List, code.Map, code.Maybe, code.Object, code.Set}
var unary = []code.UnaryOperator{code.Inc, code.Dec, code.Neg, code.BitNot}
var binary = []code.BinaryOperator{code.Add, code.Sub, code.Mul, code.Div, code.Concat, code.BitAnd, code.BitOr, code.BitXor, code.BitShiftLeft, code.BitShiftRight, code.BitShiftRightArithmetic}
var boolean = []code.BooleanOperator{code.Not, code.And, code.Or, code.Lesser, code.LesserEquals, code.Equals, code.GreaterEquals, code.Greater, code.Ternary}

// TestClasses goes through all types and operators.
func TestClasses(t *testing.T) {
	seenT, seenO := map[code.Type]bool{}, map[code.Operator]bool{}
	vt.Table(t, "all types and operators: their numbers differ and each is in exactly its class", func(each func(string, func(func(string, ...any)))) {
		typ := func(x code.Type, scalar bool) {
			each(fmt.Sprint("type ", x, scalar), func(fail func(string, ...any)) {
				if code.IsScalar(x) != scalar || code.IsAggregate(x) == scalar {
					fail("scalar %v, aggregate %v", code.IsScalar(x), code.IsAggregate(x))
				}
				if seenT[x] {
					fail("the number occurs twice")
				}
				seenT[x] = true
			})
		}
		op := func(x code.Operator, class int) {
			each(fmt.Sprint("operator ", x, " ", class), func(fail func(string, ...any)) {
				if x.IsUnary() != (class == 1) || x.IsBinary() != (class == 2) || x.IsBoolean() != (class == 3) {
					fail("unary %v, binary %v, boolean %v", x.IsUnary(), x.IsBinary(), x.IsBoolean())
				}
				if seenO[x] {
					fail("the number occurs twice")
				}
				seenO[x] = true
			})
		}
		for _, x := range scalars {
			typ(code.Type(x), true)
		}
		for _, x := range aggregates {
			typ(code.Type(x), false)
		}
		for _, x := range unary {
			op(code.Operator(x), 1)
		}
		for _, x := range binary {
			op(code.Operator(x), 2)
		}
		for _, x := range boolean {
			op(code.Operator(x), 3)
		}
	})
}

func drawAccess(c *vt.C) (args []code.AccessLevel, want code.AccessLevel) {
	all := []code.AccessLevel{code.Private, code.Package, code.PackageSub, code.Public}
	if i := c.Range(0, 4, "access"); i < 4 {
		// only the first one counts
		return append([]code.AccessLevel{all[i]}, all[:c.Range(0, 1, "more")]...), all[i]
	}
	return nil, code.Private
}

func drawNames(c *vt.C, min int) (res []string) {
	n := c.Range(min, 3, "names")
	if c.Range(0, 19, "many") == 0 {
		n = max(min, c.SizeOr(70, 3000, "names"))
	}
	for i := range n {
		if i < 10 {
			res = append(res, drawText(c, "name"))
		} else {
			res = append(res, fmt.Sprint("n", i))
		}
	}
	return
}

// drawText draws a name or the text of a value, which are free
func drawText(c *vt.C, label string) string {
	if c.Bool(label + " is simple") {
		return fmt.Sprint("v", c.Range(0, 99, label))
	}
	return c.Word(label, "", " ", "a", "A", "_", "-1", "1.50", "nil", "true", "\"quoted\"", "a b", " a ", "a\n", "é", "日本", "\xff", "𝄞", "A_B", "type", "0x10", strings.Repeat("long", 70))
}

// drawType makes a type with the constructors, and the same by hand
func drawType(c *vt.C, depth int, nils *int) (got, want *code.TypeDef) {
	acc, a := drawAccess(c)
	kind := 0
	if depth > 0 {
		kind = c.Range(0, 9, "kind")
	}
	// an element that may be nil, in which case the constructor has to panic
	elem := func() (*code.TypeDef, union.Maybe[*code.TypeDef]) {
		if c.Range(0, 30, "nil") == 0 {
			*nils++
			return nil, union.Empty[*code.TypeDef]()
		}
		g, w := drawType(c, depth-1, nils)
		if g == nil {
			g = code.OfJSONType() // the panic has already been seen
		}
		return g, union.Of(w)
	}
	build := func(f func() *code.TypeDef) *code.TypeDef {
		var res *code.TypeDef
		p, panicked := vt.Panics(func() { res = f() })
		if panicked {
			c.Fatalf("constructor of kind %d panics: %v", kind, p)
		}
		return res
	}
	mustPanic := func(f func() *code.TypeDef) {
		if _, panicked := vt.Panics(func() { f() }); !panicked {
			c.Fatalf("constructor of kind %d accepts a nil element or no constants", kind)
		}
	}
	one := func(make func(e *code.TypeDef) *code.TypeDef, w code.TypeDef) (*code.TypeDef, *code.TypeDef) {
		e, m := elem()
		if e == nil {
			mustPanic(func() *code.TypeDef { return make(nil) })
			return nil, nil
		}
		w.Access, w.ValueType = a, m
		g := build(func() *code.TypeDef { return make(e) })
		if p := g.ValueType.OrElse(nil); p != e {
			c.Fatalf("a type of kind %d is given %p and has %p", kind, e, p)
		}
		return g, &w
	}
	switch kind {
	case 2:
		return build(func() *code.TypeDef { return code.OfJSONType(acc...) }), &code.TypeDef{Access: a, Typ: code.Type(code.JSON)}
	case 3:
		var bounds []uint
		for n := c.Range(0, []int{3, 3, 3, 40}[c.Range(0, 3, "most")], "dimensions"); n > 0; n-- {
			bounds = append(bounds, []uint{0, 1, 2, 3, 10, 255, 256, math.MaxInt32 + 1, math.MaxUint32 + 1, math.MaxUint}[c.Range(0, 9, "bound")])
		}
		return one(func(e *code.TypeDef) *code.TypeDef { return code.OfArrayType(e, bounds, acc...) }, code.TypeDef{Typ: code.Type(code.Array), ArrayBounds: append([]uint(nil), bounds...)})
	case 4:
		name, names, base := drawText(c, "name"), drawNames(c, 0), code.OfScalarType(code.Uint)
		if len(names) == 0 {
			mustPanic(func() *code.TypeDef { return code.OfEnumType("e", base, names, acc...) })
			*nils++
			return nil, nil
		}
		return one(func(e *code.TypeDef) *code.TypeDef { return code.OfEnumType(name, e, names, acc...) }, code.TypeDef{Typ: code.Type(code.Enum), Name: name, Names: append([]string(nil), names...)})
	case 5:
		return one(func(e *code.TypeDef) *code.TypeDef { return code.OfListType(e, acc...) }, code.TypeDef{Typ: code.Type(code.List)})
	case 6:
		k, km := elem()
		v, vm := elem()
		if k == nil || v == nil {
			mustPanic(func() *code.TypeDef { return code.OfMapType(k, v, acc...) })
			return nil, nil
		}
		return build(func() *code.TypeDef { return code.OfMapType(k, v, acc...) }), &code.TypeDef{Access: a, Typ: code.Type(code.Map), KeyType: km, ValueType: vm}
	case 7:
		return one(func(e *code.TypeDef) *code.TypeDef { return code.OfMaybeType(e, acc...) }, code.TypeDef{Typ: code.Type(code.Maybe)})
	case 8:
		name, names := drawText(c, "name"), drawNames(c, 0)
		b, m := elem()
		if b == nil { // whether an object has to have a base type is not stated
			return nil, nil
		}
		return build(func() *code.TypeDef { return code.OfObjectType(b, name, names, acc...) }), &code.TypeDef{Access: a, Typ: code.Type(code.Object), Name: name, Names: append([]string(nil), names...), ValueType: m}
	case 9:
		return one(func(e *code.TypeDef) *code.TypeDef { return code.OfSetType(e, acc...) }, code.TypeDef{Typ: code.Type(code.Set)})
	}
	s := scalars[c.Range(0, len(scalars)-1, "scalar")]
	return build(func() *code.TypeDef { return code.OfScalarType(s, acc...) }), &code.TypeDef{Access: a, Typ: code.Type(s)}
}

func depthOf(d *code.TypeDef) int {
	if d == nil {
		return 0
	}
	return 1 + max(depthOf(d.KeyType.OrElse(nil)), depthOf(d.ValueType.OrElse(nil)))
}

func TestTypes(t *testing.T) {
	vt.Check(t, 10000, "type definitions nested up to 4 deep, with drawn access levels, names, bounds, nil elements and empty lists of constants; non-trivial if at least 3 deep or if a constructor has to panic", func(c *vt.C) {
		nils := 0
		got, want := drawType(c, c.Range(0, 4, "depth"), &nils)
		if got != nil && nils == 0 && !reflect.DeepEqual(got, want) {
			c.Fatalf("%#v, expected %#v", got, want)
		}
		c.Class("depth %d", depthOf(got))
		if depthOf(got) > 2 || nils > 0 {
			c.NonTrivial("%v %v", describe(got), nils)
		}
	})
}

func describe(d *code.TypeDef) string {
	if d == nil {
		return "-"
	}
	return fmt.Sprintf("%d/%d%v%v(%s,%s)", d.Typ, d.Access, d.ArrayBounds, d.Names, describe(d.KeyType.OrElse(nil)), describe(d.ValueType.OrElse(nil)))
}

func TestExprs(t *testing.T) {
	vt.Check(t, 10000, "expressions of every operator with 0 to 6 operands, any of them nil, literals, variables and constants; non-trivial if an operand is nil or missing, or if at least two operands differ", func(c *vt.C) {
		typ := code.OfScalarType(scalars[c.Range(0, len(scalars)-1, "scalar")])
		vals := make([]*code.Val, 6)
		anyNil := false
		for i := range vals {
			text := drawText(c, "text")
			var v, want code.Val
			acc, _ := drawAccess(c)
			maybe := union.Empty[code.AccessLevel]()
			if acc != nil {
				maybe = union.Of(acc[0])
			}
			switch c.Range(0, 2, "kind") {
			case 0:
				v, want = code.OfLitVal(typ, text), code.Val{Kind: code.LitVal, Typ: typ, Value: text}
			case 1:
				v, want = code.OfVarVal(false, typ, text, acc...), code.Val{Access: maybe, Kind: code.VarVal, Typ: typ, Value: text}
			default:
				v, want = code.OfVarVal(true, typ, text, acc...), code.Val{Access: maybe, Kind: code.VarConst, Typ: typ, Value: text}
			}
			if !reflect.DeepEqual(v, want) {
				c.Fatalf("value %#v, expected %#v", v, want)
			}
			vals[i] = &v
			if c.Range(0, 9, "nil operand") == 0 {
				vals[i] = nil
				anyNil = true
			}
		}
		for _, f := range []func(){func() { code.OfLitVal(nil, "1") }, func() { code.OfVarVal(true, nil, "x") }} {
			if _, p := vt.Panics(f); !p {
				c.Fatalf("a value of a nil type is accepted")
			}
		}
		var expr code.Expr
		var op code.Operator
		var need, given int
		var make func()
		switch c.Range(0, 2, "class") {
		case 0:
			o := unary[c.Range(0, len(unary)-1, "operator")]
			op, need, given = code.Operator(o), 1, 1
			make = func() { expr = code.OfUnaryExpr(o, vals[0]) }
		case 1:
			o := binary[c.Range(0, len(binary)-1, "operator")]
			op, need, given = code.Operator(o), 2, 2
			make = func() { expr = code.OfBinaryExpr(o, vals[0], vals[1]) }
		default:
			o := boolean[c.Range(0, len(boolean)-1, "operator")]
			op, need = code.Operator(o), 2
			switch o {
			case code.Not:
				need = 1
			case code.Ternary:
				need = 3
			}
			if given = c.Range(1, 3, "operands"); c.Range(0, 3, "more") == 0 {
				given = c.Range(3, 6, "many operands")
			}
			make = func() { expr = code.OfBooleanExpr(o, vals[0], vals[1:given]...) }
		}
		ok := given >= need
		for i := 0; i < min(given, need); i++ {
			ok = ok && vals[i] != nil
		}
		p, panicked := vt.Panics(make)
		if panicked == ok {
			c.Fatalf("operator %d needs %d operands, given %d of %v: panics %v with %v", op, need, given, vals, panicked, p)
		}
		if ok {
			get := func(m union.Maybe[*code.Val]) *code.Val { return m.OrElse(nil) }
			want := []*code.Val{vals[0], nil, nil}
			for i := 1; i < need; i++ {
				want[i] = vals[i]
			}
			if expr.Op != op || expr.Val1 != want[0] || get(expr.Val2) != want[1] || get(expr.Val3) != want[2] {
				c.Fatalf("operator %d of %d operands is %#v", op, given, expr)
			}
		}
		c.Class("operands %d of %d, any nil %v", given, need, anyNil)
		if !ok || need > 1 && vals[0].Value != vals[1].Value {
			c.NonTrivial("%d %d %v", op, given, vals[0])
		}
	})
}
