package c22

import (
	"fmt"
	"math/big"
	"math/cmplx"
	"reflect"
	goslices "slices"
	"sort"
	"testing"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"verif/harness/vt"
)

func ints(c *vt.C, n int, label string) []int {
	var v []int
	if c.Range(0, 9, label+".nil") == 0 {
		return nil
	}
	if n >= 8 && c.Range(0, 59, label+".large") == 0 {
		v = make([]int, c.SizeOr(1500, 140000, label+".size"))
		mul, mod := c.Range(1, 7, label+".mul"), c.Size(1500, label+".mod")+1
		for i := range v {
			v[i] = i * mul % mod
		}
		return v
	}
	// some spare capacity, so that appending in place shows
	v = make([]int, c.Range(0, n, label+".len"), n+3)
	for i := range v {
		v[i] = c.Range(0, 5, label)
	}
	return v
}

// backing is all of the memory of a slice
func backing(v []int) []int { return v[:cap(v)] }

func dup(v []int) []int { return append([]int{}, v...) }

func eq(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func TestSlices(t *testing.T) {
	vt.Check(t, 40000, "slices of up to 8 elements, a few of up to 1500, with spare capacity, nil ones included, through each slice function; non-trivial if of at least 2 elements", func(c *vt.C) {
		v := ints(c, 8, "slice")
		slices(c, v)
	})
}

// every short slice
func TestAllSlices(t *testing.T) {
	vt.All(t, 3000000, "every slice of up to 4 elements of 0, 1 and 2, with room for none, one or three more, and nil, through each slice function as in TestSlices; non-trivial as there", func(c *vt.C) {
		room := c.Range(-1, 2, "room")
		var v []int
		if room >= 0 {
			v = []int{}
			for range 4 {
				k := c.Range(0, 3, "element")
				if k == 0 {
					break
				}
				v = append(v, k-1)
			}
			v = append(make([]int, 0, len(v)+[]int{0, 1, 3}[room]), v...)
		}
		slices(c, v)
	})
}

// slices checks a function with a slice
func slices(c *vt.C, v []int) {
	n := len(v)
	orig, mem := dup(v), dup(backing(v))
	x := c.Range(0, 6, "value")
	what := ""
	same := true // the source must be the same afterwards
	switch c.Range(0, 8, "function") {
	case 0:
		what = fmt.Sprintf("SliceAdd %d to %v", x, orig)
		same = false
		funcs.SliceAdd(&v, x)
		if v == nil || !eq(v, append(dup(orig), x)) {
			c.Fatalf("%s: %v", what, v)
		}
	case 1:
		what = fmt.Sprintf("SliceCopy of %v", orig)
		r := funcs.SliceCopy(v)
		if r == nil || !eq(r, orig) {
			c.Fatalf("%s: %v", what, r)
		}
		for i := range r {
			r[i] = -1
		}
		if r = append(r, -1); !eq(v, orig) || !eq(backing(v), mem) {
			c.Fatalf("%s: a change of the copy changes the original to %v", what, v)
		}
	case 2:
		i := c.Range(-10, 10, "index")
		if !c.Exhaustive() && n > 10 {
			i += []int{0, n, -n, n / 2, -n / 2}[c.Range(0, 4, "from")]
		}
		if c.Range(0, 9, "far") == 0 {
			i = []int{-1 << 63, 1<<63 - 1}[x%2]
		}
		what = fmt.Sprintf("SliceIndex %d of %v", i, orig)
		want, wantD := 0, 77
		if i >= 0 && i < n {
			want, wantD = orig[i], orig[i]
		} else if i < 0 && i >= -n {
			want, wantD = orig[n+i], orig[n+i]
		}
		if r, d := funcs.SliceIndex(v, i), funcs.SliceIndex(v, i, 77); r != want || d != wantD {
			c.Fatalf("%s: %d, with a default of 77 %d", what, r, d)
		}
	case 3:
		what = fmt.Sprintf("SliceRemove %d from %v", x, orig)
		var first, all []int
		found := false
		for _, y := range orig {
			if y != x {
				first, all = append(first, y), append(all, y)
			} else if found {
				first = append(first, y)
			} else {
				found = true
			}
		}
		a, b, d := funcs.SliceRemove(v, x), funcs.SliceRemove(v, x, false), funcs.SliceRemove(v, x, funcs.ALL)
		if !eq(a, first) || !eq(b, first) || !eq(d, all) {
			c.Fatalf("%s: %v, %v, all %v", what, a, b, d)
		}
	case 4:
		what = fmt.Sprintf("SliceReverse of %v", orig)
		same = false
		r := funcs.SliceReverse(v)
		for i := range orig {
			if v[i] != orig[n-1-i] {
				c.Fatalf("%s: %v", what, v)
			}
		}
		if !eq(r, v) || n > 0 && &r[0] != &v[0] || len(mem) > n && !eq(backing(v)[n:], mem[n:]) {
			c.Fatalf("%s: %v, returns %v", what, v, r)
		}
	case 5:
		what = fmt.Sprintf("SliceToMap of %v", orig)
		a, b := funcs.SliceToMap(v), funcs.SliceToMapBy(v, func(x int) string { return fmt.Sprint(x % 3) })
		wa, wb := map[int]bool{}, map[string]bool{}
		for _, y := range orig {
			wa[y], wb[fmt.Sprint(y%3)] = true, true
		}
		if !reflect.DeepEqual(a, wa) || !reflect.DeepEqual(b, wb) {
			c.Fatalf("%s: %v, by %%3 %v", what, a, b)
		}
	case 6:
		what = fmt.Sprintf("SliceUniqueValues of %v", orig)
		r := funcs.SliceUniqueValues(v)
		seen := map[int]bool{}
		for _, y := range r {
			if seen[y] {
				c.Fatalf("%s: %v", what, r)
			}
			seen[y] = true
		}
		if !reflect.DeepEqual(seen, funcs.SliceToMap(orig)) {
			c.Fatalf("%s: %v", what, r)
		}
	case 7:
		what = fmt.Sprintf("SliceOf %v", orig)
		if r := funcs.SliceOf(v...); !eq(r, orig) {
			c.Fatalf("%s: %v", what, r)
		}
	case 8:
		what = fmt.Sprintf("MustNonEmptySlice %v", orig)
		var r []int
		if _, p := vt.Panics(func() { r = funcs.MustNonEmptySlice(v) }); p != (n == 0) || !p && !eq(r, orig) {
			c.Fatalf("%s: %v, panics %v", what, r, p)
		}
	}
	if same && (!eq(v, orig) || !eq(backing(v), mem)) {
		c.Fatalf("%s changes the slice to %v, its memory to %v", what, v, backing(v))
	}
	if n >= 2 {
		c.NonTrivial("%s", what)
	}
}

type node struct {
	id   int
	next []int // makes it uncomparable
}

func TestRemoveUncomparable(t *testing.T) {
	vt.Check(t, 10000, "slices of up to 8 pointers to equal or other values, of one or several types; non-trivial if at least 2 elements are the same pointer", func(c *vt.C) {
		type other struct {
			id   int
			next []int
		}
		var pool []any
		for i := 0; i < 3; i++ {
			pool = append(pool, &node{id: i / 2}, &other{id: i / 2})
		}
		// by value, of equal contents but different types
		pool = append(pool, node{id: 1}, other{id: 1}, struct{ s string }{"a"}, struct{ t string }{"a"}, "a", fmt.Stringer(nil))
		id := make([]int, c.Range(0, 8, "len"))
		v, p := make([]any, len(id), len(id)+2), make([]*node, len(id), len(id)+2)
		nodes := []*node{{}, {}, {id: 1}, nil}
		for i := range id {
			id[i] = c.Range(0, len(pool)-1, "element")
			v[i], p[i] = pool[id[i]], nodes[id[i]%4]
		}
		x := c.Range(0, len(pool)-1, "value")
		n := 0
		remove := func(all bool, key func(int) int) (left []int) {
			n = 0
			for i := range id {
				if key(id[i]) == key(x) {
					if n++; all || n == 1 {
						continue
					}
				}
				left = append(left, i)
			}
			return
		}
		for _, all := range []bool{false, true} {
			left := remove(all, func(k int) int { return k % 4 })
			r := funcs.SliceRemoveUncomparable(p, nodes[x%4], all)
			ok := len(r) == len(left)
			for i := range left {
				ok = ok && r[i] == p[left[i]] && p[left[i]] == nodes[id[left[i]]%4]
			}
			if !ok {
				c.Fatalf("removing pointer %d of %v, all %v: %v", x%4, id, all, r)
			}
			left = remove(all, func(k int) int { return k })
			s := funcs.SliceRemoveUncomparable(v, pool[x], all)
			ok = len(s) == len(left)
			for i := range left {
				ok = ok && reflect.TypeOf(s[i]) == reflect.TypeOf(pool[id[left[i]]]) && fmt.Sprintf("%p", s[i]) == fmt.Sprintf("%p", pool[id[left[i]]])
			}
			if !ok {
				c.Fatalf("removing value %d of %v, all %v: %v", x, id, all, s)
			}
		}
		// the same for slices in maps, other keys stay as they are
		for _, all := range []bool{false, true} {
			left := remove(all, func(k int) int { return k % 4 })
			for _, opt := range [][]bool{{all}, {all, !all}, nil} {
				if opt == nil && all {
					continue
				}
				m := map[string][]*node{"k": p[:len(id):len(id)], "other": p[:len(id):len(id)]}
				m2 := map[int]map[string][]*node{1: {"k": p[:len(id):len(id)], "other": p[:len(id):len(id)]}, 2: {"k": p[:len(id):len(id)]}}
				funcs.MapSliceRemoveUncomparable(m, "k", nodes[x%4], opt...)
				funcs.Map2SliceRemoveUncomparable(m2, 1, "k", nodes[x%4], opt...)
				funcs.MapSliceRemoveUncomparable(m, "none", nodes[x%4], opt...)
				funcs.Map2SliceRemoveUncomparable(m2, 1, "none", nodes[x%4], opt...)
				funcs.Map2SliceRemoveUncomparable(m2, 3, "k", nodes[x%4], opt...)
				funcs.MapSliceRemoveUncomparable(map[string][]*node(nil), "k", nodes[x%4], opt...)
				funcs.Map2SliceRemoveUncomparable(map[int]map[string][]*node(nil), 1, "k", nodes[x%4], opt...)
				ok := len(m) == 2 && len(m2) == 2 && len(m2[1]) == 2 && len(m2[2]) == 1
				for _, r := range [][]*node{m["k"], m2[1]["k"]} {
					ok = ok && len(r) == len(left)
					for i := range left {
						ok = ok && r[i] == nodes[id[left[i]]%4]
					}
				}
				for _, r := range [][]*node{m["other"], m2[1]["other"], m2[2]["k"], p} {
					ok = ok && len(r) == len(id)
					for i := range id {
						ok = ok && r[i] == nodes[id[i]%4]
					}
				}
				if !ok {
					c.Fatalf("removing pointer %d of %v in maps, all %v: %v %v", x%4, id, opt, m, m2)
				}
			}
		}
		if n > 1 {
			c.NonTrivial("%d of %v", x, id)
		}
	})
}

type (
	named  []int
	matrix [][]int
	cube   []matrix
)

func TestFlatten(t *testing.T) {
	vt.Check(t, 15000, "slices of 1 to 4 dimensions of ints, strings and interfaces, with nil and empty ones, named types included; non-trivial if of at least 2 dimensions and elements", func(c *vt.C) {
		flatten(c, 3, 5)
	})
}

// every small shape
func TestAllFlatten(t *testing.T) {
	vt.All(t, 3000000, "slices as in TestFlatten, of every shape of up to 2 elements at each level, nil ones included; non-trivial as there", func(c *vt.C) {
		flatten(c, 2, 1)
	})
}

// flatten checks a slice with up to most elements at each level, one in nils+1 of which is nil
func flatten(c *vt.C, most, nils int) {
	var want []int
	next := 0
	d1 := func() []int {
		if c.Range(0, nils, "nil") == 0 {
			return nil
		}
		v := []int{}
		for n := c.Range(0, most, "len"); n > 0; n-- {
			v = append(v, next)
			want = append(want, next)
			next++
		}
		return v
	}
	d2 := func() [][]int {
		if c.Range(0, nils, "nil") == 0 {
			return nil
		}
		v := [][]int{}
		for n := c.Range(0, most, "len"); n > 0; n-- {
			v = append(v, d1())
		}
		return v
	}
	d3 := func() [][][]int {
		v := [][][]int{}
		for n := c.Range(0, most, "len"); n > 0; n-- {
			v = append(v, d2())
		}
		return v
	}
	var v any
	dims := 2
	switch c.Range(0, 7, "type") {
	case 0:
		v, dims = d1(), 1
	case 1:
		v, dims = named(d1()), 1
	case 2:
		v = d2()
	case 3:
		v = matrix(d2())
	case 4:
		v, dims = d3(), 3
	case 5:
		v, dims = cube{d2(), d2()}, 3
	case 6:
		if c.Exhaustive() {
			v, dims = [][][][]int{nil, d3()}, 4
		} else {
			v, dims = [][][][]int{d3(), nil, d3()}, 4
		}
	case 7: // interfaces, nil ones among them
		e := [][]any{{nil, 1}, {}, nil, {"a", []int{2}, error(nil)}}
		e = e[:c.Range(0, 4, "len")]
		r := funcs.SliceFlatten[any](e)
		all := []any{}
		for _, s := range e {
			all = append(all, s...)
		}
		if !reflect.DeepEqual(r, all) {
			c.Fatalf("flattening %v: %v", e, r)
		}
		return
	}
	before := fmt.Sprint(v)
	r := funcs.SliceFlatten[int](v)
	if !eq(r, want) || fmt.Sprint(v) != before {
		c.Fatalf("flattening %#v of %s: %v", v, before, r)
	}
	if e := funcs.SliceFlatten[int](nil); e == nil || len(e) != 0 {
		c.Fatalf("flattening nil: %#v", e)
	}
	bad := []any{0, "a", []string{}, [][]any{}, [2]int{}, map[int]int{}, []float64{1}, &want, [][2]int{}}[c.Range(0, 8, "bad")]
	if _, p := vt.Panics(func() { funcs.SliceFlatten[int](bad) }); !p {
		c.Fatalf("flattening %#v does not panic", bad)
	}
	if dims > 1 && len(want) > 1 {
		c.NonTrivial("%T %v", v, v)
	}
}

// TestMaps is a history on a map of each kind
func TestMaps(t *testing.T) {
	vt.Check(t, 15000, "histories of up to 25 operations on maps, two level maps, and maps of slices, nil at first, each checked in full after each operation, along with slices taken before, and that the maps stay the same ones; non-trivial if of at least 5 operations", func(c *vt.C) {
		var (
			m   map[int]string
			m2  map[int]map[string]int
			ms  map[int][]int
			m2s map[int]map[string][]int

			wm   = map[int]string{}
			wm2  = map[[2]int]int{}
			wms  = map[int][]int{}
			wm2s = map[[2]int][]int{}
		)
		type snap struct{ got, want []int }
		var snaps []snap
		str := func(k int) string { return fmt.Sprint("k", k) }
		del := func(v []int, x int, all bool) []int {
			r := []int{}
			n := 0
			for _, y := range v {
				if y == x {
					if n++; all || n == 1 {
						continue
					}
				}
				r = append(r, y)
			}
			return r
		}
		desc := ""
		n := c.Range(0, 25, "ops")
		if c.Bool("start") { // with empty maps of the caller's
			m, ms = map[int]string{}, map[int][]int{}
			m2, m2s = map[int]map[string]int{0: {}, 1: nil}, map[int]map[string][]int{0: {}, 1: nil}
			desc = " started"
		}
		for range n {
			k, k2, x, all := c.Range(0, 3, "key"), c.Range(0, 2, "key 2"), c.Range(0, 3, "value"), c.Bool("all")
			op := c.Range(0, 10, "op")
			desc += fmt.Sprintf(" %d(%d %d %d %v)", op, k, k2, x, all)
			kk := [2]int{k, k2}
			held := []any{m, ms, m2, m2s, m2[k], m2s[k]}
			switch op {
			case 0:
				funcs.MapSet(&m, k, str(x))
				wm[k] = str(x)
			case 1:
				funcs.MapUnset(m, k)
				delete(wm, k)
			case 2:
				funcs.Map2Set(&m2, k, str(k2), x)
				wm2[kk] = x
			case 3:
				funcs.Map2Unset(m2, k, str(k2))
				delete(wm2, kk)
			case 4, 5:
				funcs.MapSliceAdd(&ms, k, x)
				wms[k] = append(dup(wms[k]), x)
			case 6, 7:
				if op == 6 {
					funcs.MapSliceRemove(ms, k, x, all)
				} else if !all {
					funcs.MapSliceRemove(ms, k, x)
				}
				if _, has := wms[k]; has && (op == 6 || !all) {
					wms[k] = del(wms[k], x, all)
				}
			case 8, 9:
				funcs.Map2SliceAdd(&m2s, k, str(k2), x)
				wm2s[kk] = append(dup(wm2s[kk]), x)
			case 10:
				funcs.Map2SliceRemove(m2s, k, str(k2), x, all)
				if _, has := wm2s[kk]; has {
					wm2s[kk] = del(wm2s[kk], x, all)
				}
			}
			for i, now := range []any{m, ms, m2, m2s, m2[k], m2s[k]} { // a map that exists is added to
				if h := reflect.ValueOf(held[i]); op != 1 && op != 3 && !h.IsNil() && h.Pointer() != reflect.ValueOf(now).Pointer() {
					c.Fatalf("%s: map %d, %v, is replaced by %v", desc, i, held[i], now)
				}
			}
			for a := 0; a < 4; a++ {
				w, has := wm[a]
				wd := w
				if !has {
					wd = "default"
				}
				if g, gd := funcs.MapIndex(m, a), funcs.MapIndex(m, a, "default"); g != w || gd != wd || funcs.MapTest(m, a) != has {
					c.Fatalf("%s: map %v at %d: %q and %q", desc, m, a, g, gd)
				}
				if !eq(ms[a], wms[a]) {
					c.Fatalf("%s: %v, expected %v", desc, ms, wms)
				}
				for b := 0; b < 3; b++ {
					ab := [2]int{a, b}
					w, has := wm2[ab]
					if m2[a][str(b)] != w || funcs.Map2Test(m2, a, str(b)) != has {
						c.Fatalf("%s: %v, expected %v", desc, m2, wm2)
					}
					if !eq(m2s[a][str(b)], wm2s[ab]) {
						c.Fatalf("%s: %v, expected %v", desc, m2s, wm2s)
					}
				}
			}
			if len(m) != len(wm) || len(ms) != len(wms) {
				c.Fatalf("%s: %v %v, expected %v %v", desc, m, ms, wm, wms)
			}
			for _, s := range snaps {
				if !eq(s.got, s.want) {
					c.Fatalf("%s: a slice taken before changes from %v to %v", desc, s.want, s.got)
				}
			}
			snaps = append(snaps, snap{ms[k], dup(ms[k])}, snap{m2s[k][str(k2)], dup(m2s[k][str(k2)])})
		}
		keys := funcs.MapKeysToSlice(m)
		sort.Ints(keys)
		var wkeys []int
		for k := 0; k < 4; k++ {
			if _, has := wm[k]; has {
				wkeys = append(wkeys, k)
			}
		}
		if keys == nil || !eq(keys, wkeys) {
			c.Fatalf("%s: keys %v of %v", desc, keys, wm)
		}
		if n >= 5 {
			c.NonTrivial("%s", desc)
		}
	})
}

func checkSorted[K any](c *vt.C, what string, got []tuple.Two[K, int], want map[int]K, less func(a, b K) bool, same func(a, b K) bool) {
	ok := len(got) == len(want)
	for i, kv := range got {
		k, has := want[kv.U]
		ok = ok && has && same(k, kv.T) && (i == 0 || !less(kv.T, got[i-1].T))
		delete(want, kv.U)
	}
	if !ok {
		c.Fatalf("%s: %v", what, got)
	}
	if len(got) > 2 {
		c.NonTrivial("%s %v", what, got)
	}
}

func build[K comparable](c *vt.C, key func() K) (map[K]int, map[int]K) {
	m, w := map[K]int{}, map[int]K{}
	n := c.Range(0, 10, "len")
	if c.Range(0, 30, "large") == 0 {
		n = c.SizeOr(300, 3000, "len")
	}
	for ; n > 0; n-- {
		k := key()
		if _, has := m[k]; !has {
			m[k] = n
			w[n] = k
		}
	}
	return m, w
}

func TestMapSorts(t *testing.T) {
	vt.Check(t, 15000, "maps of up to 10 entries, or at times 300 or 3000, of keys of several kinds, sorted; non-trivial if of at least 3 entries", func(c *vt.C) {
		most := []int{20, 20, 5000}[c.Range(0, 2, "most")]
		num := func() int { return c.Range(-most, most, "key") }
		switch c.Range(0, 4, "kind") {
		case 0:
			m, w := build(c, num)
			checkSorted(c, "MapSortOrdered", funcs.MapSortOrdered(m), w, func(a, b int) bool { return a < b }, func(a, b int) bool { return a == b })
		case 1:
			m, w := build(c, func() string {
				return c.Word("key", "", "a", "b", "ab", "B", "é", "aa", "\xff", "日", "Z")
			})
			checkSorted(c, "MapSortOrdered", funcs.MapSortOrdered(m), w, func(a, b string) bool { return a < b }, func(a, b string) bool { return a == b })
		case 2:
			if c.Bool("double") {
				m, w := build(c, func() complex128 { return complex(exact(c), exact(c)) })
				checkSorted(c, "MapSortComplex", funcs.MapSortComplex(m), w, less[complex128], func(a, b complex128) bool { return a == b })
				return
			}
			m, w := build(c, func() complex64 { return complex64(complex(exact(c), exact(c))) })
			checkSorted(c, "MapSortComplex", funcs.MapSortComplex(m), w, less[complex64], func(a, b complex64) bool { return a == b })
		case 3:
			if c.Bool("other results") {
				m, w := build(c, func() diff { return diff{num(), c.Range(0, 9, "id")} })
				checkSorted(c, "MapSortCmp", funcs.MapSortCmp(m), w, func(a, b diff) bool { return a.key < b.key }, func(a, b diff) bool { return a == b })
				return
			}
			m, w := build(c, func() *big.Int { return big.NewInt(int64(num())) })
			checkSorted(c, "MapSortCmp", funcs.MapSortCmp(m), w, func(a, b *big.Int) bool { return a.Cmp(b) < 0 }, func(a, b *big.Int) bool { return a == b })
		case 4:
			m, w := build(c, func() [2]int { return [2]int{num(), num()} })
			less := func(a, b [2]int) bool { return a[1] > b[1] }
			checkSorted(c, "MapSortBy", funcs.MapSortBy(m, less), w, less, func(a, b [2]int) bool { return a == b })
		}
	})
}

// diff compares with results of any size, and has the values of both orders for a sort
type diff struct{ key, id int }

func (a diff) Cmp(b diff) int { return (a.key - b.key) * 3 }

type (
	temp float32
	z64  complex64
)

// less is the order of complex numbers
func less[Z interface{ ~complex64 | ~complex128 }](a, b Z) bool {
	return cmplx.Abs(complex128(a)) < cmplx.Abs(complex128(b))
}

func sorted[T any](c *vt.C, what string, elem func() T, sort func([]T) []T, less func(a, b T) bool) {
	n := c.Range(0, 14, "len")
	if c.Range(0, 39, "large") == 0 {
		n = c.Size(300, "size")
	}
	v := make([]T, n, n+2)
	if n == 0 && c.Bool("nil") {
		v = nil
	}
	for i := range v {
		v[i] = elem()
	}
	mem := append([]T{}, v[:cap(v)]...)
	orig := mem[:n:n]
	count := map[string]int{}
	for _, x := range orig {
		count[fmt.Sprintf("%#v", x)]++
	}
	r := sort(v)
	ok := len(r) == n && (n == 0 || &r[0] == &v[0]) && (r == nil) == (v == nil)
	for i := range v {
		count[fmt.Sprintf("%#v", v[i])]--
		ok = ok && (i == 0 || !less(v[i], v[i-1]))
	}
	for _, k := range count {
		ok = ok && k == 0
	}
	if !ok || fmt.Sprint(v[:cap(v)][n:]) != fmt.Sprint(mem[n:]) {
		c.Fatalf("%s of %v: %v, returns %v", what, orig, v, r)
	}
	if n > 2 {
		c.NonTrivial("%s %v", what, orig)
	}
}

// exact is a number whose multiples are exact, also if their squares overflow or underflow
func exact(c *vt.C) float64 {
	return float64(c.Range(-20, 20, "number")) * []float64{1, 0.25, 1e300, 1e-300, 1e-30, 1e30}[c.Range(0, 5, "unit")]
}

func TestSorts(t *testing.T) {
	vt.Check(t, 20000, "slices of up to 14 elements, a few of up to 300, of types of every kind, sorted in place by every function; non-trivial if of at least 3 elements", func(c *vt.C) {
		switch c.Range(0, 9, "kind") {
		case 0:
			sorted(c, "SliceSortOrdered", func() int { return c.Range(-9, 9, "int") }, funcs.SliceSortOrdered[int], func(a, b int) bool { return a < b })
		case 1:
			sorted(c, "SliceSortOrdered", func() uint64 { return vt.DrawInt[uint64](c.T, "uint") }, funcs.SliceSortOrdered[uint64], func(a, b uint64) bool { return a < b })
		case 2:
			sorted(c, "SliceSortOrdered", func() temp { return temp(exact(c)) }, funcs.SliceSortOrdered[temp], func(a, b temp) bool { return a < b })
		case 3:
			sorted(c, "SliceSortOrdered", func() string {
				return c.Word("string", "", "a", "b", "ab", "B", "é", "aa", "\xff", "日", "Z", "10", "9")
			}, funcs.SliceSortOrdered[string], func(a, b string) bool { return a < b })
		case 4:
			sorted(c, "SliceSortComplex", func() complex128 { return complex(exact(c), exact(c)) }, funcs.SliceSortComplex[complex128], less[complex128])
		case 5:
			sorted(c, "SliceSortComplex", func() z64 { return z64(complex(exact(c), exact(c))) }, funcs.SliceSortComplex[z64], less[z64])
		case 6:
			sorted(c, "SliceSortCmp", func() diff { return diff{c.Range(-5, 5, "key"), c.Range(0, 99, "id")} }, funcs.SliceSortCmp[diff], func(a, b diff) bool { return a.key < b.key })
		case 7:
			sorted(c, "SliceSortCmp", func() *big.Rat { return big.NewRat(int64(c.Range(-9, 9, "n")), int64(c.Range(1, 9, "d"))) }, funcs.SliceSortCmp[*big.Rat], func(a, b *big.Rat) bool { return a.Cmp(b) < 0 })
		case 8:
			l := func(a, b [2]int) bool { return a[1] > b[1] }
			sorted(c, "SliceSortBy", func() [2]int { return [2]int{c.Range(0, 9, "a"), c.Range(0, 9, "b")} }, func(v [][2]int) [][2]int { return funcs.SliceSortBy(v, l) }, l)
		case 9:
			l := func(a, b any) bool { return fmt.Sprint(a) < fmt.Sprint(b) }
			pool := []any{nil, 1, "a", 2.5, false, "1", []int{3}}
			sorted(c, "SliceSortBy", func() any { return pool[c.Range(0, len(pool)-1, "any")] }, func(v []any) []any { return funcs.SliceSortBy(v, l) }, l)
		}
	})
}

// TestConvert: slices and maps of any to those of a type
func TestConvert(t *testing.T) {
	vt.Check(t, 15000, "slices, slices of slices, and maps of any whose elements are all, or not all, of a type; non-trivial if of at least 2 elements", func(c *vt.C) {
		bad, n := false, 0
		elem := func() any {
			n++
			if c.Range(0, 9, "bad") == 0 {
				bad = true
				return []any{nil, "a", int8(1), 1.0, []any{}, named{}}[c.Range(0, 5, "what")]
			}
			return c.Range(0, 9, "element")
		}
		slice := func() []any {
			v := []any{}
			for n := c.Range(0, 4, "len"); n > 0; n-- {
				v = append(v, elem())
			}
			return v
		}
		check := func(in any, got any, err error, must func() any) {
			if bad != (err != nil) || !bad && fmt.Sprint(got) != fmt.Sprint(in) || bad && !reflect.ValueOf(got).IsZero() {
				c.Fatalf("%#v converts to %#v, error %v", in, got, err)
			}
			var m any
			if _, p := vt.Panics(func() { m = must() }); p != bad || !p && !reflect.DeepEqual(m, got) {
				c.Fatalf("%#v: panics %v, %v", in, p, m)
			}
			if n > 1 {
				c.NonTrivial("%#v", in)
			}
		}
		other := c.Range(0, 9, "other") == 0
		others := []any{nil, 1, []int{1}, [2]any{}, map[string]int{}, map[int]any{}, []string{}, [][]any{}, [][]int{{1}}}
		switch c.Range(0, 3, "kind") {
		case 0:
			var in any = slice()
			if other {
				in, bad = others[c.Range(0, 8, "in")], true
			}
			v, err := funcs.ConvertToSlice[int]("it", in)
			if len(v) > 0 && err == nil {
				// neither shares memory with the other
				was, before := v[0], fmt.Sprint(in)
				v[0] = -1
				if fmt.Sprint(in) != before {
					c.Fatalf("a change of the converted %s changes it to %v", before, in)
				}
				in.([]any)[0] = nil
				if v[0] != -1 {
					c.Fatalf("a change of %s changes what it is converted to, %v", before, v)
				}
				v[0], in.([]any)[0] = was, was
			}
			check(in, v, err, func() any { return funcs.MustConvertToSlice[int]("it", in) })
		case 1:
			v2 := []any{}
			for n := c.Range(0, 3, "len 2"); n > 0; n-- {
				if c.Range(0, 9, "bad row") == 0 {
					v2, bad = append(v2, others[c.Range(0, 6, "row")]), true
				} else {
					v2 = append(v2, slice())
				}
			}
			var in any = v2
			if other {
				in, bad = others[c.Range(0, 8, "in")], true
			}
			v, err := funcs.ConvertToSlice2[int]("it", in)
			if err == nil {
				// the rows share no memory with each other, however they change
				before := fmt.Sprint(v)
				for i := range v {
					_ = append(v[i], -1, -2, -3)
				}
				if fmt.Sprint(v) != before {
					c.Fatalf("appending to rows of %s changes other ones: %v", before, v)
				}
			}
			check(in, v, err, func() any { return funcs.MustConvertToSlice2[int]("it", in) })
		case 2:
			m := map[string]any{}
			for n := c.Range(0, 4, "len"); n > 0; n-- {
				m[fmt.Sprint("k", n)] = elem()
			}
			var in any = m
			if other {
				in, bad = others[c.Range(0, 8, "in")], true
			}
			v, err := funcs.ConvertToMap[string, int]("it", in)
			check(in, v, err, func() any { return funcs.MustConvertToMap[string, int]("it", in) })
		case 3:
			in := elem()
			v, err := funcs.AssertType[int]("it", in)
			check(in, v, err, func() any { return funcs.MustAssertType[int]("it", in) })
		}
	})
}

// TestConvertSame: what is converted may already be of the type wanted; the result is new all the same
func TestConvertSame(t *testing.T) {
	vt.Check(t, 8000, "slices, slices of slices and maps of anything converted to ones of anything, and each changed afterwards; non-trivial if of at least 2 elements", func(c *vt.C) {
		n := c.Range(0, 12, "len")
		in, m, rows := make([]any, n, n+c.Range(0, 3, "room")), map[string]any{}, make([]any, 0, n)
		for i := range in {
			in[i] = []any{i, "x", 1.5, [2]int{i, i}}[c.Range(0, 3, "element")]
			m[fmt.Sprint(i)] = in[i]
			rows = append(rows, append([]any{}, in[:i+1]...))
		}
		before := fmt.Sprint(in, m, rows)
		s, err := funcs.ConvertToSlice[any]("it", in)
		s2, err2 := funcs.ConvertToSlice2[any]("it", rows)
		mp, err3 := funcs.ConvertToMap[string, any]("it", m)
		if err != nil || err2 != nil || err3 != nil {
			c.Fatalf("%v converts to %v, %v, %v", before, err, err2, err3)
		}
		if got := fmt.Sprint(s, mp, s2); got != before {
			c.Fatalf("%s converts to %s", before, got)
		}
		if n == 0 {
			return
		}
		i := c.Range(0, n-1, "changed")
		s[i], s2[i][i], mp[fmt.Sprint(i)], mp["new"] = "changed", "changed", "changed", 0
		_, _ = append(s, "more"), append(s2[i], "more")
		if now := fmt.Sprint(in, m, rows); now != before || goslices.Contains(in[:cap(in)], any("more")) {
			c.Fatalf("%s is %s after what it was converted to is changed", before, now)
		}
		after := fmt.Sprint(s, mp, s2)
		clear(in)
		clear(m)
		clear(rows)
		if now := fmt.Sprint(s, mp, s2); now != after {
			c.Fatalf("what %s was converted to is %s after the original is changed, not %s", before, now, after)
		}
		if n > 1 {
			c.NonTrivial("%s", before)
		}
	})
}
