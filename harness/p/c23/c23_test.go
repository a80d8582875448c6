package c23

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"verif/harness/vt"
)

// model is a map of lists
type model[K constraint.Ordered] map[K][]int

func (m model[K]) keys() []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func remove(v []int, x int, all bool) []int {
	r := []int{}
	n := 0
	for _, y := range v {
		if y == x {
			if n++; all || n == 1 {
				continue
			}
		}
		r = append(r, y)
	}
	return r
}

// checkSearch checks the search for a key in a sorted list of keys
func checkSearch[K constraint.Ordered, V any](c *vt.C, what string, mp []tuple.Two[K, V], k K) {
	want, match := -1, false
	for i, kv := range mp {
		if kv.T <= k {
			want, match = i, kv.T == k
		}
	}
	if want == -1 && len(mp) > 0 {
		want = 0 // smaller than all
	}
	if i, m := funcs.OrderedTuple2Search(mp, k); i != want || m != match {
		c.Fatalf("%s: search of %v in %v: %d, %v; expected %d, %v", what, k, mp, i, m, want, match)
	}
}

// history runs operations on a sorted map with keys drawn by key, and on another with pointers as values
func history[K constraint.Ordered](c *vt.C, key func() K) {
	var used []K
	limit := 20
	if c.Range(0, 4, "long") == 0 {
		limit = 60
	}
	ops := make([]step[K], c.Range(0, limit, "ops"))
	for i := range ops {
		o := &ops[i]
		if len(used) > 0 && c.Bool("used key") {
			o.key = used[c.Range(0, len(used)-1, "which")]
		} else {
			o.key = key()
			used = append(used, o.key)
		}
		o.value, o.all, o.probe = c.Range(0, 3, "value"), c.Bool("all"), key()
		switch op := c.Range(0, 9, "op"); {
		case op == 6:
			o.op = removeKey
		case op > 6:
			o.op, o.flag = removeValue, !o.all && c.Bool("flag")
		}
	}
	run(c, ops)
}

const (
	add = iota
	removeKey
	removeValue
)

// step is one operation of a history
type step[K any] struct {
	op, value int
	key       K
	all, flag bool
	probe     K // a key to search for afterwards
}

// run runs a history
func run[K constraint.Ordered](c *vt.C, ops []step[K]) {
	var (
		mp   []tuple.Two[K, []int]
		mpp  []tuple.Two[K, []*int]
		pool = [4]*int{new(int), new(int), new(int), new(int)}
		m    = model[K]{}
		desc = fmt.Sprintf("%T:", *new(K))
		n    = len(ops)
		held [][2][]tuple.Two[K, []int]
	)
	for _, o := range ops {
		k, x, all := o.key, o.value, o.all
		before := append([]tuple.Two[K, []int]{}, mp...)
		alias := mp
		switch o.op {
		case add:
			desc += fmt.Sprintf(" add(%v %d)", k, x)
			funcs.OrderedTuple2SliceAdd(&mp, k, x)
			funcs.OrderedTuple2SliceAdd(&mpp, k, pool[x])
			m[k] = append(append([]int{}, m[k]...), x)
		case removeKey:
			desc += fmt.Sprintf(" removekey(%v)", k)
			funcs.OrderedTuple2SliceRemoveKey(&mp, k)
			funcs.OrderedTuple2SliceRemoveKey(&mpp, k)
			delete(m, k)
			if !reflect.DeepEqual(append([]tuple.Two[K, []int]{}, alias...), before) {
				c.Fatalf("%s: a copy of the slice changes from %v to %v", desc, before, alias)
			}
			if len(mp) < len(before) {
				held = append(held, [2][]tuple.Two[K, []int]{alias, before})
			}
		default:
			desc += fmt.Sprintf(" remove(%v %d %v)", k, x, all)
			if all {
				funcs.OrderedTuple2SliceRemoveValue(&mp, k, x, funcs.ALL)
				funcs.OrderedTuple2SliceRemoveUncomparable(&mpp, k, pool[x], funcs.ALL)
			} else if o.flag {
				funcs.OrderedTuple2SliceRemoveValue(&mp, k, x, false)
				funcs.OrderedTuple2SliceRemoveUncomparable(&mpp, k, pool[x], false)
			} else {
				funcs.OrderedTuple2SliceRemoveValue(&mp, k, x)
				funcs.OrderedTuple2SliceRemoveUncomparable(&mpp, k, pool[x])
			}
			if v, has := m[k]; has {
				m[k] = remove(v, x, all)
			}
		}
		ks := m.keys()
		ok := len(mp) == len(ks) && len(mpp) == len(ks)
		for i := 0; ok && i < len(ks); i++ {
			v := m[ks[i]]
			ok = mp[i].T == ks[i] && mpp[i].T == ks[i] && fmt.Sprint(mp[i].U) == fmt.Sprint(v) && len(mpp[i].U) == len(v)
			for j := 0; ok && j < len(v); j++ {
				ok = mpp[i].U[j] == pool[v[j]]
			}
		}
		if !ok {
			c.Fatalf("%s: %v and %v; expected %v in order of keys", desc, mp, mpp, m)
		}
		checkSearch(c, desc, mp, k)
		checkSearch(c, desc, mp, o.probe)
	}
	// what was being iterated when a key was removed is still the same, whatever happened to the rest since
	for _, h := range held {
		if !reflect.DeepEqual(append([]tuple.Two[K, []int]{}, h[0]...), h[1]) {
			c.Fatalf("%s: the slice from before a key was removed changes from %v to %v", desc, h[1], h[0])
		}
	}
	c.Class("keys %d+", len(m)/4*4)
	if n >= 4 && len(m) >= 2 {
		c.NonTrivial("%s", desc)
	}
}

type word string

func TestHistories(t *testing.T) {
	vt.Check(t, 30000, "histories of up to 60 insertions and removals of keys and values of a sorted map with keys of several types; non-trivial if of at least 4 operations and 2 keys at the end", func(c *vt.C) {
		switch c.Range(0, 10, "type") {
		case 0:
			history(c, func() int { return c.Range(-9, 9, "key") })
		case 4, 5:
			// strings that are equal up to some place
			parts := []string{"a", "b", "ab", "\x00", "é", "B", "0", "10", "9"}
			history(c, func() string {
				return strings.Repeat("0123456789abcdef", 8)[:[]int{0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128}[c.Range(0, 14, "start")]] + c.Seq(3, parts...)
			})
		case 6:
			start := strings.Repeat("x", c.Range(1, 300, "start"))
			history(c, func() word { return word(start + c.Seq(2, "a", "b", "x", "é", "\xff")) })
		case 7:
			history(c, func() uint64 { return vt.DrawInt[uint64](c.T, "key") })
		case 8:
			history(c, func() int8 { return vt.DrawInt[int8](c.T, "key") })
		case 9:
			history(c, func() float64 { return vt.DrawFloat64(c.T, "key") })
		case 1:
			history(c, func() word {
				return []word{"", "a", "b", "ab", "B", "é", "aa", "\xff", "日", "Z"}[c.Range(0, 9, "key")]
			})
		case 2:
			history(c, func() float64 { return float64(c.Range(-30, 30, "key")) / 4 })
		case 3:
			history(c, func() uint8 { return uint8(c.Range(0, 255, "key")) })
		default:
			history(c, func() int { return vt.DrawInt[int](c.T, "key") })
		}
	})
}

// every short history
func TestAllShort(t *testing.T) {
	vt.All(t, 3000000, "every history of up to 4 operations on 3 keys and 2 values, and of up to 5 operations on 3 keys and 1 value; non-trivial as in TestHistories", func(c *vt.C) {
		values, n := 2, 4
		if c.Bool("longer") {
			values, n = 1, 5
		}
		var ops []step[int]
		for i := range n {
			// add, remove one or all of each value, remove each key, or end
			k := c.Range(0, 9*values+3, "op")
			if k == 0 {
				break
			}
			o := step[int]{probe: 3*i%8 - 1, key: 2 * (k % 3)}
			switch k = (k - 1) / 3; {
			case k == 3*values:
				o.op = removeKey
			case k < values:
				o.value = k
			default:
				o.op, o.value, o.all = removeValue, k%values, k >= 2*values
			}
			ops = append(ops, o)
		}
		run(c, ops)
	})
}

func TestSearch(t *testing.T) {
	vt.Check(t, 30000, "searches in sorted maps of up to 70 keys for each key, and for keys between, below and above; non-trivial if of at least 3 keys", func(c *vt.C) {
		var mp []tuple.Two[int, string]
		k := c.Range(-20, 0, "first")
		for n := c.Range(0, []int{4, 10, 70}[c.Range(0, 2, "size")], "keys"); n > 0; n-- {
			k += c.Range(1, 3, "gap")
			mp = append(mp, tuple.Of2(k, fmt.Sprint(k)))
		}
		start := strings.Repeat("p", []int{0, 1, 4, 8, 16, 32, 64, 256}[c.Range(0, 7, "start")])
		str := func(x int) string { return fmt.Sprintf("%s%03d", start, x+100) }
		var mps []tuple.Two[string, int]
		for _, kv := range mp {
			mps = append(mps, tuple.Of2(str(kv.T), kv.T))
		}
		if len(mp) == 0 {
			checkSearch(c, "empty", mp, k)
			return
		}
		for x := mp[0].T - 1; x <= k+1; x++ {
			checkSearch(c, "sorted", mp, x)
			checkSearch(c, "sorted strings", mps, str(x))
		}
		if len(mp) > 2 {
			c.NonTrivial("%v", mp)
		}
	})
}

// Methods of named types do not matter; the texts still tell values apart.
func (m word) String() string    { return fmt.Sprint("1", string(m)) }
func (m word) Cmp(o word) int    { return vt.Compare(string(o), string(m)) }
func (m word) Less(o word) bool  { return o < m }
func (m word) Equal(o word) bool { return m != o }
