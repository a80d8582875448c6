package c14

import (
	"fmt"
	"strings"
	"testing"

	mj "github.com/bantling/micro/encoding/json"

	"verif/harness/vt"
)

// TestLarge has objects and arrays of more entries and levels than the other tests
func TestLarge(t *testing.T) {
	vt.Check(t, 250, "objects and arrays of up to 600 entries or once in a while 20000, below up to 600 levels of objects and arrays, converted, converted back and searched, some with one element of an unsupported type; non-trivial if of more than 16 entries", func(c *vt.C) {
		n, depth, bad := c.SizeOr(600, 20000, "n"), c.Size(600, "depth"), -1
		if n > 0 && c.Range(0, 3, "bad") == 0 {
			bad = c.Range(0, n-1, "which")
		}
		obj, arr := map[string]any{}, make([]any, n)
		elem := func(i int) any {
			return []any{i, fmt.Sprint("s", i), i%2 == 0, nil, mj.NumberString("1e5"), map[string]any{"k": i}, []any{i}}[i%7]
		}
		for i := range arr {
			e := elem(i)
			if i == bad {
				e = struct{}{}
			}
			arr[i] = e
			obj[fmt.Sprint("k", i)] = e
		}
		var in any = map[string]any{"o": obj, "a": arr}
		objects := c.Range(1, 3, "objects")
		for d := range depth {
			if d%objects == 0 {
				in = []any{in}
			} else {
				in = map[string]any{"d": in, "e": d}
			}
		}
		root := map[string]any{"root": in}
		m, errm := mj.MapToValue(root)
		s, errs := mj.SliceToValue([]any{in})
		if (errm != nil) != (bad >= 0) || (errs != nil) != (bad >= 0) {
			c.Fatalf("%d entries below %d levels, entry %d of an unsupported type: %v, %v", n, depth, bad, errm, errs)
		}
		if n > 16 {
			c.NonTrivial("%d %d %d %d", n, depth, bad, objects)
		}
		if bad >= 0 {
			return
		}
		// down to what was put in, and again in what is obtained from the value
		gm, gs := m.ToMap(), s.ToSlice()
		if len(gm) != 1 || len(gs) != 1 {
			c.Fatalf("%d and %d entries at the root", len(gm), len(gs))
		}
		vm, vs, am, as := m.AsMap()["root"], s.AsSlice()[0], gm["root"], gs[0]
		for d := depth - 1; d >= 0; d-- {
			if d%objects == 0 {
				lm, ls := am.([]any), as.([]any)
				if len(vm.AsSlice()) != 1 || len(vs.AsSlice()) != 1 || len(lm) != 1 || len(ls) != 1 {
					c.Fatalf("level %d of %d: %v and %v", d, depth, lm, ls)
				}
				vm, vs, am, as = vm.AsSlice()[0], vs.AsSlice()[0], lm[0], ls[0]
				continue
			}
			lm, ls := am.(map[string]any), as.(map[string]any)
			e := mj.NumberString(fmt.Sprint(d))
			if len(vm.AsMap()) != 2 || len(vs.AsMap()) != 2 || vm.AsMap()["e"].AsNumber() != e || vs.AsMap()["e"].AsNumber() != e || len(lm) != 2 || len(ls) != 2 || lm["e"] != e || ls["e"] != e {
				c.Fatalf("level %d of %d: %v and %v", d, depth, lm, ls)
			}
			vm, vs, am, as = vm.AsMap()["d"], vs.AsMap()["d"], lm["d"], ls["d"]
		}
		for _, v := range []mj.Value{vm, vs} {
			o, a := v.AsMap()["o"].AsMap(), v.AsMap()["a"].AsSlice()
			if len(o) != n || len(a) != n {
				c.Fatalf("%d entries become %d and %d", n, len(o), len(a))
			}
			for i := range a {
				same(c, elem(i), a[i])
				same(c, elem(i), o[fmt.Sprint("k", i)])
			}
		}
		// along the path, all of it or a part
		var sb strings.Builder
		to := c.Range(0, depth, "to")
		sb.WriteString("[0]")
		for d := depth - 1; d >= to; d-- {
			sb.WriteString([]string{"[0]", ".d"}[min(1, d%objects)])
		}
		find, err := mj.ParsePath(sb.String())
		if err != nil {
			c.Fatalf("path %s: %v", sb.String(), err)
		}
		v, err := find(s)
		if err != nil {
			c.Fatalf("path %s of %d levels: %v", sb.String(), depth, err)
		}
		for d := to - 1; d >= 0; d-- {
			if typ := []mj.Type{mj.Array, mj.Object}[min(1, d%objects)]; v.Type() != typ {
				c.Fatalf("path %s of %d levels down to level %d: at level %d %v instead of %v", sb.String(), depth, to, d, v.Type(), typ)
			}
			if d%objects == 0 {
				v = v.AsSlice()[0]
				continue
			}
			if e := v.AsMap()["e"].AsNumber(); e != mj.NumberString(fmt.Sprint(d)) {
				c.Fatalf("path %s of %d levels down to level %d: at level %d level %v", sb.String(), depth, to, d, e)
			}
			v = v.AsMap()["d"]
		}
		if v.Type() != mj.Object || len(v.AsMap()) != 2 || len(v.AsMap()["a"].AsSlice()) != n {
			c.Fatalf("path %s of %d levels down to level %d: at the bottom %v", sb.String(), depth, to, v.Type())
		}
		sameAny(c, vm, am)
		sameAny(c, vs, as)
		sameAny(c, vm, as)
	})
}
