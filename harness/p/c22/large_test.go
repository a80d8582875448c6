package c22

import (
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/bantling/micro/funcs"

	"verif/harness/vt"
)

// TestLarge has maps and slices of slices too large for the other tests, of contents that follow from their size
func TestLarge(t *testing.T) {
	vt.Check(t, 400, "maps, and slices of two and three dimensions, of up to 3000 elements or once in a while 140000, sorted, changed, flattened, and converted with up to one element of another type; non-trivial if of more than 16 elements", func(c *vt.C) {
		n := c.SizeOr(3000, 140000, "n")
		mul := c.Range(1, 9, "mul")*2 + 1 // so that all of the keys differ
		neg := c.Bool("negative")
		key := func(i int) int {
			k := i * mul
			if neg {
				k = -k
			}
			return k
		}
		kind := c.Range(0, 4, "kind")
		switch kind {
		case 0: // sorts
			m, keys := map[int]int{}, make([]int, n)
			for i := range n {
				m[key(i)] = i
				keys[i] = key(i)
			}
			sort.Ints(keys)
			sorted := funcs.MapSortOrdered(m)
			by := funcs.MapSortBy(m, func(a, b int) bool { return a > b })
			all := funcs.MapKeysToSlice(m)
			sort.Ints(all)
			if len(sorted) != n || len(by) != n || !eq(all, keys) || len(m) != n {
				c.Fatalf("of %d entries, %d, %d and %d are sorted and listed, %d are left", n, len(sorted), len(by), len(all), len(m))
			}
			for i, k := range keys {
				if sorted[i].T != k || sorted[i].U != m[k] || by[n-1-i] != sorted[i] {
					c.Fatalf("of %d entries sorted, entry %d is %v and from the end %v, expected %d", n, i, sorted[i], by[n-1-i], k)
				}
			}
		case 1: // changes of a map
			var (
				m   map[int]int
				m2  map[int]map[int]int
				ms  map[int][]int
				m2s map[int]map[int][]int
			)
			rows := c.Range(1, 40, "rows")
			var slc []int
			for i := range n {
				if funcs.SliceAdd(&slc, key(i)); len(slc) != i+1 || slc[i] != key(i) || slc[i/2] != key(i/2) {
					c.Fatalf("%d of %d values added to a slice: %d in it", i+1, n, len(slc))
				}
			}
			for i := range n {
				funcs.MapSet(&m, key(i), i)
				funcs.Map2Set(&m2, i%rows, key(i), i)
				funcs.MapSliceAdd(&ms, i/rows, i)
				funcs.Map2SliceAdd(&m2s, i%rows, key(i/2), i)
			}
			gone := c.Range(1, 5, "gone")
			for i := 0; i < n; i += gone {
				funcs.MapUnset(m, key(i))
				funcs.Map2Unset(m2, i%rows, key(i))
				funcs.MapSliceRemove(ms, i/rows, i)
				funcs.Map2SliceRemove(m2s, i%rows, key(i/2), i)
			}
			for i := range n {
				has, v := i%gone != 0, -1
				if has {
					v = i
				}
				_, has2 := m2[i%rows][key(i)]
				if funcs.MapTest(m, key(i)) != has || funcs.MapIndex(m, key(i), -1) != v || funcs.Map2Test(m2, i%rows, key(i)) != has || has2 != has {
					c.Fatalf("with every %dth of %d entries removed, entry %d: %v %v, expected %v", gone, n, i, funcs.MapTest(m, key(i)), funcs.Map2Test(m2, i%rows, key(i)), has)
				}
				in := func(v []int) bool {
					for _, x := range v {
						if x == i {
							return true
						}
					}
					return false
				}
				if in(ms[i/rows]) != has || in(m2s[i%rows][key(i/2)]) != has {
					c.Fatalf("with every %dth of %d values removed, %d is in %v, and in %v", gone, n, i, ms[i/rows], m2s[i%rows][key(i/2)])
				}
			}
		case 2: // flattening
			want := make([]int, n)
			row := c.SizeOr(50, 100000, "row") + 1
			var v [][]int
			var cube [][][]int
			for i := range want {
				want[i] = key(i)
				if i%row == 0 {
					v = append(v, nil)
					if len(v)%3 == 1 {
						cube = append(cube, nil)
					}
				}
				v[len(v)-1] = append(v[len(v)-1], want[i])
			}
			for i, r := range v {
				cube[i/3] = append(cube[i/3], r)
			}
			if g, h := funcs.SliceFlatten[int](v), funcs.SliceFlatten[int](cube); !eq(g, want) || !eq(h, want) {
				c.Fatalf("%d elements in rows of %d flatten to %d and %d", n, row, len(g), len(h))
			}
		default: // conversions
			in, m, rows := make([]any, n), map[int]any{}, []any{}
			row := c.SizeOr(50, 100000, "row") + 1
			bad := -1
			if n > 0 && c.Bool("bad") {
				bad = c.Range(0, n-1, "which")
			}
			for i := range in {
				in[i] = key(i)
				if i == bad {
					in[i] = fmt.Sprint(i)
				}
				m[key(i)] = in[i]
				if i%row == 0 {
					rows = append(rows, in[i:min(n, i+row)])
				}
			}
			s, err := funcs.ConvertToSlice[int]("it", in)
			s2, err2 := funcs.ConvertToSlice2[int]("it", rows)
			sm, err3 := funcs.ConvertToMap[int, int]("it", m)
			if (err != nil) != (bad >= 0) || (err2 != nil) != (bad >= 0) || (err3 != nil) != (bad >= 0) {
				c.Fatalf("%d elements, the one at %d of another type: %v, %v, %v", n, bad, err, err2, err3)
			}
			if bad >= 0 {
				break
			}
			if len(s) != n || len(s2) != len(rows) || len(sm) != n {
				c.Fatalf("%d elements in %d rows convert to %d, %d rows, and %d entries", n, len(rows), len(s), len(s2), len(sm))
			}
			for i := range in {
				if s[i] != key(i) || s2[i/row][i%row] != key(i) || sm[key(i)] != key(i) {
					c.Fatalf("%d elements: %d converts to %v, %v and %v", n, i, s[i], s2[i/row], sm[key(i)])
				}
			}
			for i, r := range s2 {
				if len(r) != reflect.ValueOf(rows[i]).Len() {
					c.Fatalf("row %d is of %d elements", i, len(r))
				}
			}
		}
		if n > 16 {
			c.NonTrivial("%d %d %d %v", kind, n, mul, neg)
		}
	})
}
