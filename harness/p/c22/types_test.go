package c22

import (
	"fmt"
	"math"
	"testing"

	"github.com/bantling/micro/funcs"
	"verif/harness/vt"
)

type id struct {
	name string
	no   int
}

type label string

// sameList tells if two lists have the same values; those that do not equal themselves are the same
func sameList[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && (a[i] == a[i] || b[i] == b[i]) {
			return false
		}
	}
	return true
}

func sameMap[K, V comparable](a, b map[K]V) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, has := b[k]; k == k && (!has || w != v && w == w) {
			return false
		}
	}
	return true
}

func without[T comparable](v []T, x T, all bool) []T {
	r, found := []T{}, false
	for _, y := range v {
		if y == x && (all || !found) {
			found = true
			continue
		}
		r = append(r, y)
	}
	return r
}

// kinds checks the slice and map functions with values of a type
func kinds[T comparable](c *vt.C, draw func(l string) T) {
	n := c.Range(0, 10, "len")
	if c.Range(0, 19, "large") == 0 {
		n = c.SizeOr(100, 1000, "len")
	}
	v := make([]T, n)
	for i := range v {
		v[i] = draw("element")
		if i > 0 && c.Range(0, 4, "again") == 0 {
			v[i] = v[c.Range(0, i-1, "which")]
		}
	}
	x := draw("value")
	if n > 0 && c.Range(0, 3, "in") > 0 {
		x = v[c.Range(0, n-1, "value")]
	}
	orig := append([]T{}, v...)
	desc := fmt.Sprintf("%T: %#v with %#v", v, v, x)
	fail := func(what string, got any) {
		c.Fatalf("%s of %s: %#v", what, desc, got)
	}

	// slices
	if g := funcs.SliceCopy(v); !sameList(g, orig) {
		fail("SliceCopy", g)
	}
	if g := funcs.SliceOf(v...); !sameList(g, orig) {
		fail("SliceOf", g)
	}
	for _, all := range []bool{false, true} {
		if g := funcs.SliceRemove(v, x, all); !sameList(g, without(orig, x, all)) {
			fail(fmt.Sprint("SliceRemove all=", all), g)
		}
	}
	i := c.Range(-12, 12, "index")
	want := x
	if i >= 0 && i < n {
		want = orig[i]
	} else if i < 0 && n+i >= 0 {
		want = orig[n+i]
	}
	if g := funcs.SliceIndex(v, i, x); !sameList([]T{g}, []T{want}) {
		fail(fmt.Sprint("SliceIndex ", i), g)
	}
	set, ids, nans := map[T]bool{}, map[id]bool{}, 0
	for _, y := range orig {
		set[y] = true
		if y != y {
			nans++
		}
	}
	for y := range set {
		if y == y {
			ids[id{fmt.Sprint(any(y)), len(fmt.Sprint(any(y)))}] = true
		}
	}
	if g := funcs.SliceToMap(v); !sameMap(g, set) {
		fail("SliceToMap", g)
	}
	if g := funcs.SliceToMapBy(without(orig, x, true), func(y T) id { return id{fmt.Sprint(any(y)), len(fmt.Sprint(any(y)))} }); nans == 0 {
		wantIds := map[id]bool{}
		for _, y := range without(orig, x, true) {
			wantIds[id{fmt.Sprint(any(y)), len(fmt.Sprint(any(y)))}] = true
		}
		if !sameMap(g, wantIds) {
			fail("SliceToMapBy without the value", g)
		}
	}
	unique := funcs.SliceUniqueValues(v)
	if g := funcs.SliceToMap(unique); len(unique) != len(set) || !sameMap(g, set) {
		fail("SliceUniqueValues", unique)
	}
	if !sameList(v, orig) {
		fail("what is left", v)
	}
	added := v
	funcs.SliceAdd(&added, x)
	if !sameList(added, append(append([]T{}, orig...), x)) {
		fail("SliceAdd", added)
	}
	back := append([]T{}, orig...)
	funcs.SliceReverse(funcs.SliceReverse(back)[:n])
	if !sameList(back, orig) {
		fail("twice SliceReverse", back)
	}

	// maps, whose keys and values are the elements
	var (
		m   map[T]T
		m2  map[T]map[T]T
		ms  map[T][]T
		m2s map[T]map[T][]T

		wm   = map[T]T{}
		wm2  = map[[2]T]T{}
		wms  = map[T][]T{}
		wm2s = map[[2]T][]T{}
	)
	if nans > 0 || x != x {
		return // such keys cannot be found
	}
	at := func(i int) T { return append(orig, x)[i%(n+1)] }
	for i := range min(n+2, 200) {
		k, k2, val := at(i*3+1), at(i*5), at(i*7+2)
		funcs.MapSet(&m, k, val)
		wm[k] = val
		funcs.Map2Set(&m2, k, k2, val)
		wm2[[2]T{k, k2}] = val
		funcs.MapSliceAdd(&ms, k, val)
		wms[k] = append(wms[k], val)
		funcs.Map2SliceAdd(&m2s, k, k2, val)
		wm2s[[2]T{k, k2}] = append(wm2s[[2]T{k, k2}], val)
		if i%3 == 2 {
			k, k2, val = at(i), at(i/2), at(i+1)
			switch c.Range(0, 4, "op") {
			case 0:
				funcs.MapUnset(m, k)
				delete(wm, k)
			case 1:
				funcs.Map2Unset(m2, k, k2)
				delete(wm2, [2]T{k, k2})
			case 2:
				funcs.MapSliceRemove(ms, k, val, i%2 == 0)
				if wms[k] != nil {
					wms[k] = without(wms[k], val, i%2 == 0)
				}
			case 3:
				funcs.Map2SliceRemove(m2s, k, k2, val, i%2 == 0)
				if w := wm2s[[2]T{k, k2}]; w != nil {
					wm2s[[2]T{k, k2}] = without(w, val, i%2 == 0)
				}
			}
		}
	}
	if !sameMap(m, wm) {
		fail(fmt.Sprintf("map is not %v", wm), m)
	}
	keys := funcs.MapKeysToSlice(m)
	if g := funcs.SliceToMap(keys); len(keys) != len(wm) || len(g) != len(wm) {
		fail("MapKeysToSlice", keys)
	}
	for _, k := range keys {
		if _, has := wm[k]; !has {
			fail("MapKeysToSlice", keys)
		}
	}
	for _, k := range append(append([]T{}, orig...), x) {
		w, has := wm[k]
		if g := funcs.MapIndex(m, k); g != w || funcs.MapTest(m, k) != has {
			fail(fmt.Sprintf("MapIndex and MapTest %#v", k), m)
		}
		if !has {
			w = x
		}
		if g := funcs.MapIndex(m, k, x); g != w {
			fail(fmt.Sprintf("MapIndex %#v with a default", k), g)
		}
		if !sameList(ms[k], wms[k]) {
			fail(fmt.Sprintf("map of slices at %#v is not %#v", k, wms[k]), ms[k])
		}
		for _, k2 := range append(orig[:min(n, 10):min(n, 10)], x) {
			kk := [2]T{k, k2}
			w, has := wm2[kk]
			if m2[k][k2] != w || funcs.Map2Test(m2, k, k2) != has {
				fail(fmt.Sprintf("map of maps at %#v", kk), m2)
			}
			if !sameList(m2s[k][k2], wm2s[kk]) {
				fail(fmt.Sprintf("map of maps of slices at %#v is not %#v", kk, wm2s[kk]), m2s)
			}
		}
	}
	c.Class("%T", x)
	if len(set) >= 2 {
		c.NonTrivial("%s", desc)
	}
}

// TestTypes: the same functions with elements, keys and values of other types
func TestTypes(t *testing.T) {
	nodes := make([]*node, 300)
	for i := range nodes {
		nodes[i] = &node{id: 1}
	}
	anys := []any{nil, 1, int8(1), int64(1), uint(1), 1.0, float32(1), "1", label("1"), true, id{"1", 1}, [1]int{1}, struct{}{}, complex(1, 0), nodes[0], nodes[1], (*node)(nil), (*id)(nil), 'a', "a", 0, false, ""}
	vt.Check(t, 6000, "up to 10 elements, now and then 100 or 1000, of a string, number, pointer, struct or interface type that often have much in common, through every slice and map function, as elements, keys and values; non-trivial if at least two differ", func(c *vt.C) {
		word := func(l string) string { return c.Word(l, "", "a", "b", "ab", "B", "é", "aa", "\xff", "日") }
		switch c.Range(0, 13, "type") {
		case 0, 1, 2:
			kinds(c, word)
		case 3:
			kinds(c, func(l string) label { return label(word(l)) })
		case 4:
			kinds(c, func(l string) float64 {
				return []float64{0, math.Copysign(0, -1), 1, 1 + 1e-15, 1e300, 1e-300, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.NaN(), 1 << 53, 1<<53 + 2}[c.Range(0, 11, l)]
			})
		case 5:
			base := vt.DrawInt[uint64](c.T, "base")
			kinds(c, func(l string) uint64 { return base + 1<<c.Range(0, 63, l) })
		case 6:
			kinds(c, func(l string) int8 { return vt.DrawInt[int8](c.T, l) })
		case 7:
			kinds(c, func(l string) id { return id{word(l), c.Range(-1, 1, l)} })
		case 8:
			kinds(c, func(l string) any { return anys[c.Range(0, len(anys)-1, l)] })
		case 9:
			kinds(c, func(l string) *node {
				if i := c.Range(-1, len(nodes)-1, l); i >= 0 {
					return nodes[i]
				}
				return nil
			})
		case 10:
			kinds(c, func(l string) [3]int { return [3]int{c.Range(0, 1, l), c.Range(0, 1, l), c.Range(0, 2, l)} })
		case 11:
			kinds(c, func(l string) complex128 {
				return complex(float64(c.Range(-1, 1, l)), float64(c.Range(-2, 2, l)))
			})
		case 12:
			kinds(c, func(l string) bool { return c.Bool(l) })
		case 13:
			kinds(c, func(l string) fmt.Stringer {
				if i := c.Range(-1, 3, l); i >= 0 {
					return sameName(i)
				}
				return nil
			})
		}
	})
}

type sameName int

func (n sameName) String() string { return "same" }

// Methods of named types do not matter; the texts still tell values apart.
func (m label) String() string     { return fmt.Sprint("1", string(m)) }
func (m label) Cmp(o label) int    { return vt.Compare(string(o), string(m)) }
func (m label) Equal(o label) bool { return m != o }
func (m label) Less(o label) bool  { return o < m }
func (m label) IsZero() bool       { return m != "" }
