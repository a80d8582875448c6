package c14

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"testing"

	mj "github.com/bantling/micro/encoding/json"
	"verif/harness/jsonx"
	"verif/harness/vt"
)

type (
	subString string
	subInt    int16
	subFloat  float32
)

// number is a drawn Go number and its exact value
func number(c *vt.C) (any, *big.Rat) {
	ofInt := func(b *big.Int) *big.Rat { return new(big.Rat).SetInt(b) }
	ofFloat := func(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
	switch c.Range(0, 16, "number type") {
	case 0:
		v := vt.DrawInt[int](c.T, "int")
		return v, ofInt(vt.Big(v))
	case 1:
		v := vt.DrawInt[int8](c.T, "int8")
		return v, ofInt(vt.Big(v))
	case 2:
		v := vt.DrawInt[int16](c.T, "int16")
		return v, ofInt(vt.Big(v))
	case 3:
		v := vt.DrawInt[int32](c.T, "int32")
		return v, ofInt(vt.Big(v))
	case 4:
		v := vt.DrawInt[int64](c.T, "int64")
		return v, ofInt(vt.Big(v))
	case 5:
		v := vt.DrawInt[uint](c.T, "uint")
		return v, ofInt(vt.Big(v))
	case 6:
		v := vt.DrawInt[uint8](c.T, "uint8")
		return v, ofInt(vt.Big(v))
	case 7:
		v := vt.DrawInt[uint16](c.T, "uint16")
		return v, ofInt(vt.Big(v))
	case 8:
		v := vt.DrawInt[uint32](c.T, "uint32")
		return v, ofInt(vt.Big(v))
	case 9:
		v := vt.DrawInt[uint64](c.T, "uint64")
		return v, ofInt(vt.Big(v))
	case 10:
		v := float32(vt.DrawFloat64(c.T, "float32"))
		if math.IsInf(float64(v), 0) {
			v = 0.1
		}
		return v, nil
	case 11:
		v := vt.DrawFloat64(c.T, "float64")
		return v, nil
	case 12:
		v := vt.DrawBig(c.T, 200, "big.Int")
		return v, ofInt(v)
	case 13:
		f := vt.DrawFloat64(c.T, "big.Float")
		return big.NewFloat(f), ofFloat(f)
	case 14:
		if c.Range(0, 3, "wide") == 0 {
			r := new(big.Rat).SetInt(vt.DrawBig(c.T, 300, "big.Rat"))
			return r, r
		}
		d := vt.DrawDec(c.T, "big.Rat")
		d.Val %= 1_000_000_000_000_000
		d.Scale %= 16
		return d.Rat(), d.Rat()
	case 15:
		v := subInt(vt.DrawInt[int16](c.T, "subInt"))
		return v, big.NewRat(int64(v), 1)
	default:
		n := jsonx.DrawNum(c.T, "NumberString")
		return mj.NumberString(n), nil
	}
}

// sameNumber fails unless the number a Go number became denotes the same value
func sameNumber(c *vt.C, in any, exact *big.Rat, out mj.NumberString) {
	switch t := in.(type) {
	case mj.NumberString:
		if t != out {
			c.Fatalf("%q becomes %q", t, out)
		}
		return
	case float32:
		var f float32
		if _, err := fmt.Sscan(string(out), &f); err != nil || f != t {
			c.Fatalf("float32 %v becomes %q", t, out)
		}
		return
	case float64:
		var f float64
		if _, err := fmt.Sscan(string(out), &f); err != nil || f != t {
			c.Fatalf("float64 %v becomes %q", t, out)
		}
		return
	case *big.Float:
		f, _, err := big.ParseFloat(string(out), 10, t.Prec(), big.ToNearestEven)
		if err != nil || f.Cmp(t) != 0 {
			c.Fatalf("big.Float %v becomes %q", t, out)
		}
		return
	}
	r, ok := new(big.Rat).SetString(string(out))
	if !ok || r.Cmp(exact) != 0 {
		c.Fatalf("%T %v becomes %q", in, in, out)
	}
}

// tree is a drawn Go value; size counts its parts
func tree(c *vt.C, depth int, allow bool) (v any, size int, unsupported bool) {
	k := c.Range(0, 8, "type")
	if depth <= 0 && k >= 7 {
		k = 1
	}
	switch k {
	case 0:
		return nil, 1, false
	case 1:
		return jsonx.DrawString(c.T, "string"), 1, false
	case 2:
		return c.Bool("bool"), 1, false
	case 3, 4, 5:
		n, _ := number(c)
		return n, 1, false
	case 6:
		if !allow || c.Range(0, 2, "unsupported") > 0 {
			return []any{(*big.Int)(nil), (*big.Rat)(nil), (*big.Float)(nil)}[c.Range(0, 2, "nil")], 1, false
		}
		return []any{struct{}{}, subString("x"), math.NaN(), math.Inf(1), float32(math.Inf(-1)), mj.NumberString("1x"), mj.NumberString(""), mj.NumberString("01"), mj.NumberString(" 1"), mj.NumberString("0x1p4"),
			complex(1, 2), make(chan int), []int{1}, map[int]any{}, mj.NumberString("NaN"), new(big.Float).SetInf(true), func() {}}[c.Range(0, 16, "which")], 1, true
	case 7:
		m := map[string]any{}
		size = 1
		if c.Range(0, 7, "nil") == 0 {
			return map[string]any(nil), 1, false
		}
		for n := c.Range(0, 4, "len"); n > 0; n-- {
			k := jsonx.DrawString(c.T, "key")
			if _, has := m[k]; !has {
				e, s, u := tree(c, depth-1, allow)
				m[k] = e
				size += s
				unsupported = unsupported || u
			}
		}
		return m, size, unsupported
	}
	a := []any{}
	size = 1
	if c.Range(0, 7, "nil") == 0 {
		return []any(nil), 1, false
	}
	for n := c.Range(0, 4, "len"); n > 0; n-- {
		e, s, u := tree(c, depth-1, allow)
		a = append(a, e)
		size += s
		unsupported = unsupported || u
	}
	return a, size, unsupported
}

// same fails unless a value of micro means the same as a Go value
func same(c *vt.C, in any, v mj.Value) {
	is := func(typ mj.Type) {
		if v.Type() != typ {
			c.Fatalf("%#v becomes a %v instead of a %v", in, v.Type(), typ)
		}
	}
	switch t := in.(type) {
	case nil:
		is(mj.Null)
	case string:
		is(mj.String)
		if v.AsString() != t {
			c.Fatalf("%q becomes %q", t, v.AsString())
		}
	case bool:
		is(mj.Boolean)
		if v.AsBool() != t || v.AsString() != fmt.Sprint(t) {
			c.Fatalf("%v becomes %v", t, v.AsBool())
		}
	case map[string]any:
		is(mj.Object)
		m := v.AsMap()
		if len(m) != len(t) {
			c.Fatalf("%#v becomes %#v", t, m)
		}
		for k, e := range t {
			if _, has := m[k]; !has {
				c.Fatalf("%#v becomes %#v", t, m)
			}
			same(c, e, m[k])
		}
	case []any:
		is(mj.Array)
		s := v.AsSlice()
		if len(s) != len(t) {
			c.Fatalf("%#v becomes %#v", t, s)
		}
		for i, e := range t {
			same(c, e, s[i])
		}
	default:
		var exact *big.Rat
		switch n := in.(type) {
		case *big.Int:
			if n == nil {
				is(mj.Null)
				return
			}
			exact = new(big.Rat).SetInt(n)
		case *big.Rat:
			if n == nil {
				is(mj.Null)
				return
			}
			exact = n
		case *big.Float:
			if n == nil {
				is(mj.Null)
				return
			}
		case float32, float64, mj.NumberString:
		default:
			if i, isa := in.(subInt); isa {
				n = int16(i) // without its misleading methods
			}
			exact, _ = new(big.Rat).SetString(fmt.Sprint(n))
		}
		is(mj.Number)
		sameNumber(c, in, exact, v.AsNumber())
	}
	// exactly the accessors of the type work
	for _, a := range []struct {
		name  string
		types string
		f     func()
	}{
		{"AsMap", "Object", func() { v.AsMap() }}, {"AsSlice", "Array", func() { v.AsSlice() }},
		{"AsString", "String Number Boolean", func() { v.AsString() }}, {"AsNumber", "Number", func() { v.AsNumber() }},
		{"AsBool", "Boolean", func() { v.AsBool() }}, {"ToMap", "Object", func() { v.ToMap() }}, {"ToSlice", "Array", func() { v.ToSlice() }},
	} {
		if _, p := vt.Panics(a.f); p == strings.Contains(a.types, v.Type().String()) {
			c.Fatalf("%s of a %v panics: %v", a.name, v.Type(), p)
		}
	}
	if v.IsNull() != (v.Type() == mj.Null) || v.IsDocument() != (v.Type() == mj.Object || v.Type() == mj.Array) {
		c.Fatalf("IsNull %v, IsDocument %v of a %v", v.IsNull(), v.IsDocument(), v.Type())
	}
}

// sameAny fails unless the Go value obtained from a value of micro has exactly the documented form
func sameAny(c *vt.C, v mj.Value, out any) {
	switch v.Type() {
	case mj.Object:
		m, isa := out.(map[string]any)
		if !isa || m == nil || len(m) != len(v.AsMap()) {
			c.Fatalf("an object becomes %#v", out)
		}
		for k, e := range v.AsMap() {
			o, has := m[k]
			if !has {
				c.Fatalf("key %q is lost in %#v", k, m)
			}
			sameAny(c, e, o)
		}
	case mj.Array:
		s, isa := out.([]any)
		if !isa || s == nil || len(s) != len(v.AsSlice()) {
			c.Fatalf("an array becomes %#v", out)
		}
		for i, e := range v.AsSlice() {
			sameAny(c, e, s[i])
		}
	case mj.String:
		if s, isa := out.(string); !isa || s != v.AsString() {
			c.Fatalf("string %q becomes %#v", v.AsString(), out)
		}
	case mj.Number:
		if s, isa := out.(mj.NumberString); !isa || s != v.AsNumber() {
			c.Fatalf("number %q becomes %#v", v.AsNumber(), out)
		}
	case mj.Boolean:
		if b, isa := out.(bool); !isa || b != v.AsBool() {
			c.Fatalf("boolean %v becomes %#v", v.AsBool(), out)
		}
	default:
		if out != nil {
			c.Fatalf("null becomes %#v", out)
		}
	}
}

func TestGoValues(t *testing.T) {
	vt.Check(t, 15000, "trees of Go values of all supported types; non-trivial if of at least 4 parts", func(c *vt.C) {
		v, size, _ := tree(c, 3, false)
		root := map[string]any{"root": v}
		w, err := mj.MapToValue(root)
		if err != nil {
			c.Fatalf("MapToValue(%#v): %v", root, err)
		}
		same(c, root, w)
		a, err := mj.SliceToValue([]any{v, root})
		if err != nil {
			c.Fatalf("SliceToValue(%#v): %v", v, err)
		}
		same(c, []any{v, root}, a)
		m := jsonx.Of(w)
		for name, f := range map[string]func() (mj.Value, error){
			"ToValue":            func() (mj.Value, error) { return mj.ToValue(root) },
			"MustToValue":        func() (mj.Value, error) { return mj.MustToValue(root), nil },
			"MustMapToValue":     func() (mj.Value, error) { return mj.MustMapToValue(root), nil },
			"ToValue of Values":  func() (mj.Value, error) { return mj.ToValue(w.AsMap()) },
			"MapToValue, Values": func() (mj.Value, error) { return mj.MapToValue(w.AsMap()) },
			"Go value and back":  func() (mj.Value, error) { return mj.ToValue(w.ToMap()) },
		} {
			if g, err := f(); err != nil || !jsonx.Equal(jsonx.Of(g), m) {
				c.Fatalf("%s(%#v) = %#v, %v, MapToValue yields %#v", name, root, jsonx.Of(g), err, m)
			}
		}
		s := jsonx.Of(a)
		for name, f := range map[string]func() (mj.Value, error){
			"ToValue":              func() (mj.Value, error) { return mj.ToValue([]any{v, root}) },
			"MustSliceToValue":     func() (mj.Value, error) { return mj.MustSliceToValue([]any{v, root}), nil },
			"ToValue of Values":    func() (mj.Value, error) { return mj.ToValue(a.AsSlice()) },
			"SliceToValue, Values": func() (mj.Value, error) { return mj.SliceToValue(a.AsSlice()) },
			"Go value and back":    func() (mj.Value, error) { return mj.ToValue(a.ToSlice()) },
		} {
			if g, err := f(); err != nil || !jsonx.Equal(jsonx.Of(g), s) {
				c.Fatalf("%s(%#v) = %#v, %v, SliceToValue yields %#v", name, v, jsonx.Of(g), err, s)
			}
		}
		// back to Go values, which are copies
		for i := 0; i < 2; i++ {
			back := w.ToMap()
			sameAny(c, w, back)
			sameAny(c, w, w.ToAny())
			sameAny(c, a, a.ToSlice())
			sameAny(c, a, a.ToAny())
			back2, slc, slc2 := w.ToMap(), a.ToSlice(), a.ToSlice()
			wreck(back)
			wreck(slc)
			sameAny(c, w, back2)
			sameAny(c, a, slc2)
			wreck(back2)
			wreck(slc2)
		}
		if !jsonx.Equal(jsonx.Of(w), m) || !jsonx.Equal(jsonx.Of(a), s) {
			c.Fatalf("modifying the result of ToMap or ToSlice changes the value")
		}
		// a value made of any values is a copy
		wreck(root)
		if !jsonx.Equal(jsonx.Of(w), m) || !jsonx.Equal(jsonx.Of(a), s) {
			c.Fatalf("modifying the map that was converted changes the value")
		}
		if size >= 4 {
			c.NonTrivial("%v", m)
		}
	})
}

// wreck changes maps and slices in place
func wreck(v any) {
	switch t := v.(type) {
	case map[string]any:
		for _, e := range t {
			wreck(e)
		}
		for k := range t {
			t[k] = "wrecked"
		}
		if t != nil {
			t["wrecked"] = true
		}
	case []any:
		for _, e := range t {
			wreck(e)
		}
		// what follows it in memory as well
		for i := range t[:cap(t)] {
			t[:cap(t)][i] = "wrecked"
		}
	}
}

func TestUnsupportedValues(t *testing.T) {
	vt.Check(t, 10000, "trees of Go values, some with a value of an unsupported type or a string that is no number at some depth; non-trivial if so", func(c *vt.C) {
		v, _, bad := tree(c, 3, true)
		root := map[string]any{"root": v}
		m, errm := mj.MapToValue(root)
		s, errs := mj.SliceToValue([]any{1, v, 2})
		if (errm != nil) != bad || (errs != nil) != bad {
			c.Fatalf("%#v: unsupported %v, errors %v and %v", v, bad, errm, errs)
		}
		if bad {
			if m.Type() != mj.Invalid || s.Type() != mj.Invalid {
				c.Fatalf("%#v yields an error along with values of type %v and %v", v, m.Type(), s.Type())
			}
			// which error is reported depends on the order of map iteration if there are several
			p, panicked := vt.Panics(func() { mj.MustMapToValue(root) })
			if _, isa := p.(error); !panicked || !isa {
				c.Fatalf("MustMapToValue(%#v) panics: %v with %v", v, panicked, p)
			}
			c.NonTrivial("%T in %v", v, v)
		}
	})
}

func TestNumbers(t *testing.T) {
	numberRE := regexp.MustCompile(`\A-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?\z`)
	vt.Check(t, 15000, "Go numbers of all types, and strings near numbers; every case is non-trivial", func(c *vt.C) {
		n, exact := number(c)
		v, err := mj.ToValue(map[string]any{"": n})
		if err != nil {
			c.Fatalf("%T %v: %v", n, n, err)
		}
		num := v.AsMap()[""]
		sameNumber(c, n, exact, num.AsNumber())
		if !numberRE.MatchString(string(num.AsNumber())) {
			c.Fatalf("%T %v becomes %q, which is no JSON number", n, n, num.AsNumber())
		}
		if num.AsString() != string(num.AsNumber()) {
			c.Fatalf("AsString %q, AsNumber %q", num.AsString(), num.AsNumber())
		}
		s := string(num.AsNumber())
		for k := c.Range(0, 3, "edits"); k > 0; k-- {
			at := c.Range(0, len(s), "at")
			s = s[:at] + string("0123456789.-+eExX _\n"[c.Range(0, 19, "char")]) + s[min(len(s), at+c.Range(0, 1, "del")):]
		}
		w, err := mj.NumberToValue(mj.NumberString(s))
		if (err == nil) != numberRE.MatchString(s) {
			c.Fatalf("NumberString(%q): %v", s, err)
		}
		if err == nil && (w.Type() != mj.Number || w.AsNumber() != mj.NumberString(s)) {
			c.Fatalf("NumberString(%q) becomes %v", s, w.ToAny())
		}
		c.NonTrivial("%T %v %q", n, n, s)
	})
}

// ---- paths

type step struct {
	key   string
	index int
	isKey bool
}

// split is the grammar of paths: one or more of .key, where key has no . [ ] and is not empty, and [digits]
func split(p string) (steps []step, ok bool) {
	if p == "" {
		return nil, false
	}
	for p != "" {
		switch p[0] {
		case '.':
			end := strings.IndexAny(p[1:], ".[]")
			if end < 0 {
				end = len(p) - 1
			}
			if end == 0 {
				return nil, false
			}
			steps = append(steps, step{key: p[1 : 1+end], isKey: true})
			p = p[1+end:]
		case '[':
			end := strings.IndexByte(p, ']')
			if end < 2 || strings.Trim(p[1:end], "0123456789") != "" {
				return nil, false
			}
			n, _ := new(big.Int).SetString(p[1:end], 10)
			if !n.IsInt64() {
				return nil, false
			}
			steps = append(steps, step{index: int(n.Int64())})
			p = p[end+1:]
		default:
			return nil, false
		}
	}
	return steps, true
}

func find(v jsonx.V, steps []step) (jsonx.V, bool) {
	for _, s := range steps {
		if s.isKey {
			m, isa := v.(map[string]jsonx.V)
			if !isa {
				return nil, false
			}
			if v, isa = m[s.key]; !isa {
				return nil, false
			}
		} else {
			a, isa := v.([]jsonx.V)
			if !isa || s.index >= len(a) {
				return nil, false
			}
			v = a[s.index]
		}
	}
	return v, true
}

func TestPaths(t *testing.T) {
	vt.Check(t, 30000, "paths to drawn places of drawn values, some of them edited, applied to two values; non-trivial if of at least 2 steps", func(c *vt.C) {
		v := jsonx.V(jsonx.DrawDoc(c.T, 4, "value"))
		steep := 0
		if c.Range(0, 4, "steep") == 0 {
			// few keys and indexes, which repeat on the way down
			steep = c.Range(1, 9, "levels")
			if c.Range(0, 99, "very") == 0 {
				steep *= 100
			}
			kinds := c.Range(0, 3, "kinds")
			for n := steep; n > 0; n-- {
				switch k := c.Range(0, 3, "level"); {
				case kinds == 0 || kinds < 3 && k < 2:
					v = map[string]jsonx.V{"a": v}
				case kinds == 1 || kinds == 3 && k == 3:
					v = map[string]jsonx.V{"a": jsonx.Num("1"), "b": v}
				case k > 0:
					v = []jsonx.V{v}
				default:
					v = []jsonx.V{jsonx.Num("2"), v}
				}
			}
		}
		var sb strings.Builder
		cur := v
		for n := c.Range(1, 5, "steps") + steep; n > 0; n-- {
			switch t := cur.(type) {
			case map[string]jsonx.V:
				ks := vt.SortedKeys(t)
				k := "nokey"
				if len(ks) > 0 && c.Range(0, 9, "there") > 0 {
					k = ks[c.Range(0, len(ks)-1, "key")]
				}
				sb.WriteString("." + k)
				cur = t[k]
			case []jsonx.V:
				i := c.Range(0, len(t), "index")
				far := new(big.Int)
				if c.Range(0, 19, "far") == 0 {
					// not there, even if only some of its bits are
					far.Lsh(big.NewInt(1), []uint{8, 16, 31, 32, 33, 52, 53, 62, 63, 64, 65}[c.Range(0, 10, "bits")])
				}
				far.Add(far, big.NewInt(int64(i)))
				if far.Cmp(big.NewInt(int64(i))) > 0 {
					i = len(t)
				}
				sb.WriteString(fmt.Sprintf([]string{"[%d]", "[%d]", "[0%d]"}[c.Range(0, 2, "form")], far))
				cur = nil
				if i < len(t) {
					cur = t[i]
				}
			default:
				if c.Range(0, 2, "further") == 0 {
					sb.WriteString([]string{".a", "[0]"}[c.Range(0, 1, "what")])
				}
			}
		}
		path := sb.String()
		for n := c.Range(0, 3, "edits") - 1; n > 0; n-- {
			at := c.Range(0, len(path), "at")
			path = path[:at] + []string{".", "[", "]", "a", "0", "-1", " ", "[0]", ".a", "", "[18446744073709551616]", "[9223372036854775807]", "\n"}[c.Range(0, 12, "what")] + path[min(len(path), at+c.Range(0, 2, "del")):]
		}
		follow(c, path, v, jsonx.Draw(c.T, 2, "other"))
	})
}

// every short path
func TestAllPaths(t *testing.T) {
	obj := func(kv ...any) jsonx.V {
		m := map[string]jsonx.V{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	arr := func(v ...jsonx.V) jsonx.V { return v }
	one := obj("a", arr(jsonx.Num("1"), obj("a", "x", "0", "y"), arr(nil, true)), "0", obj("a", arr(obj("0", false))), "-", "minus", "01", "z", "a-", arr())
	two := arr(obj("a", obj("a", obj("a", jsonx.Num("2")))), arr(arr(arr()), one))
	vt.All(t, 6000000, "every path of up to 6 of the pieces .a [0] [1] . [ ] 0 a -; non-trivial if of at least 2 steps", func(c *vt.C) {
		follow(c, c.Seq(6, ".a", "[0]", "[1]", ".", "[", "]", "0", "a", "-"), one, two)
	})
}

// every index of a large array, with and without leading zeros
func TestAllIndexes(t *testing.T) {
	var large []jsonx.V
	for i := 0; i < 1100; i++ {
		large = append(large, jsonx.Num(fmt.Sprint(i)))
	}
	v, other := jsonx.V(large), jsonx.V(map[string]jsonx.V{"a": large[:9]})
	bv, bo := jsonx.Build(v), jsonx.Build(other)
	vt.All(t, 20000, "every index up to 1,105, with 0 to 3 or 30 leading zeros, in arrays of 1,100 and 9 elements; non-trivial if of two digits or more", func(c *vt.C) {
		i, zeros := c.Range(0, 1105, "index"), []int{0, 1, 2, 3, 30}[c.Range(0, 4, "zeros")]
		index := fmt.Sprintf("[%s%d]", strings.Repeat("0", zeros), i)
		for _, p := range []struct {
			path string
			in   mj.Value
			n    int
		}{{index, bv, 1100}, {".a" + index, bo, 9}} {
			f, err := mj.ParsePath(p.path)
			if err != nil {
				c.Fatalf("ParsePath(%q): %v", p.path, err)
			}
			got, err := f(p.in)
			if (err == nil) != (i < p.n) || err == nil && !jsonx.Equal(jsonx.Of(got), large[i]) {
				c.Fatalf("path %q in an array of %d elements yields %#v, %v", p.path, p.n, got, err)
			}
		}
		if i > 9 {
			c.NonTrivial("%s", index)
		}
	})
}

// follow applies a path to two values
func follow(c *vt.C, path string, v, other jsonx.V) {
	steps, ok := split(path)
	f, err := mj.ParsePath(path)
	if (err == nil) != ok {
		c.Fatalf("ParsePath(%q): %v, expected success %v", path, err, ok)
	}
	if !ok {
		if f != nil {
			c.Fatalf("ParsePath(%q) yields both a function and an error", path)
		}
		c.Class("invalid")
		return
	}
	for _, in := range []jsonx.V{v, other, v} {
		want, found := find(in, steps)
		got, err := f(jsonx.Build(in))
		if (err == nil) != found {
			c.Fatalf("path %q in %#v: %v, expected to be found: %v", path, in, err, found)
		}
		if found && !jsonx.Equal(jsonx.Of(got), want) {
			c.Fatalf("path %q in %#v yields %#v, expected %#v", path, in, jsonx.Of(got), want)
		}
		if !found && got.Type() != mj.Invalid {
			c.Fatalf("path %q in %#v yields both %#v and %v", path, in, jsonx.Of(got), err)
		}
		c.Class("found %v", found)
	}
	if len(steps) >= 2 {
		c.NonTrivial("%s in %v", path, v)
	}
}

// Methods of named types do not matter

func (s subString) String() string { return "1" + string(s) }

func (s subString) MarshalText() ([]byte, error) { return []byte("1" + s), nil }

func (s subInt) String() string { return fmt.Sprint("1", int16(s)) }

func (s subInt) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprint("1", int16(s))), nil }

func (s subFloat) String() string { return fmt.Sprint("1", float32(s)) }

func (s subFloat) Float64() (float64, error) { return 1, nil }

// TestConstants: the three values that always exist are those of Go's constants, before and after they are used
func TestConstants(t *testing.T) {
	vt.Check(t, 2000, "the values of true, false and null, put into objects and arrays of up to 5 values and converted back; non-trivial if there are any", func(c *vt.C) {
		var (
			want []any
			vals []mj.Value
		)
		for range c.Range(0, 5, "values") {
			k := c.Range(0, 2, "value")
			want = append(want, []any{nil, false, true}[k])
			vals = append(vals, []mj.Value{mj.NullValue, mj.FalseValue, mj.TrueValue}[k])
		}
		if len(vals) > 0 {
			c.NonTrivial("%v", want)
		}
		arr := mj.MustSliceToValue(append([]mj.Value{}, vals...))
		obj := mj.MustMapToValue(map[string]any{"a": want})
		for i, v := range append(append(append([]mj.Value{}, vals...), arr.AsSlice()...), obj.AsMap()["a"].AsSlice()...) {
			w := want[i%len(want)]
			if v.ToAny() != w || v.IsNull() != (w == nil) || w != nil && (v.Type() != mj.Boolean || v.AsBool() != w) || w == nil && v.Type() != mj.Null {
				c.Fatalf("value %d, of %v, is %v", i, w, v)
			}
		}
		if !mj.TrueValue.AsBool() || mj.FalseValue.AsBool() || !mj.NullValue.IsNull() {
			c.Fatalf("constants are %v, %v, %v", mj.TrueValue, mj.FalseValue, mj.NullValue)
		}
	})
}
