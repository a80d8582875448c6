package c28

import (
	"fmt"
	"testing"

	"github.com/bantling/micro/funcs"

	"verif/harness/vt"
)

// TestLarge has more operands than the other tests
func TestLarge(t *testing.T) {
	vt.Check(t, 1500, "up to 1000 operands, or once in a while 70000, of In, And, Or, Compose and TryTo, one of which decides or panics; non-trivial if of more than 16 operands", func(c *vt.C) {
		n := c.Size(1000, "operands")
		if c.Range(0, 99, "huge") == 0 {
			n = c.Size(70000, "operands")
		}
		which := c.Range(0, n, "which") // n: none
		op := c.Range(0, 4, "op")
		desc := fmt.Sprintf("%d operands, number %d differs", n, which)
		switch op {
		case 0:
			in, text := make([]int, n), make([]string, n)
			mul := c.Range(1, 9, "mul")*2 + 1
			for i := range in {
				in[i], text[i] = i*mul, fmt.Sprint(i*mul)
			}
			f, s := funcs.In(in...), funcs.In(text...)
			for _, i := range []int{which, 0, n - 1, n / 2, n} {
				want := i >= 0 && i < n
				if f(i*mul) != want || s(fmt.Sprint(i*mul)) != want || f(i*mul+1) || s(fmt.Sprint(i*mul+1)) {
					c.Fatalf("In of %d values i*%d: %d is in: %v %v", n, mul, i*mul, f(i*mul), s(fmt.Sprint(i*mul)))
				}
			}
		case 1, 2:
			calls := 0
			fs := make([]func(int) bool, n)
			for i := range fs {
				fs[i] = func(x int) bool {
					if calls != i || x != 5 {
						c.Fatalf("%s: operand %d is evaluated of %d as number %d", desc, i, x, calls)
					}
					calls++
					return (i == which) != (op == 1)
				}
			}
			f := funcs.And(fs...)
			if op == 2 {
				f = funcs.Or(fs...)
			}
			want := op == 1 == (which == n)
			if n == 0 {
				want = true
			}
			for range 2 {
				calls = 0
				if got := f(5); got != want || calls != min(n, which+1) {
					c.Fatalf("%s: %v, evaluates %d", desc, got, calls)
				}
			}
		case 3:
			calls := 0
			fs := make([]func(int) int, n)
			for i := range fs {
				fs[i] = func(x int) int {
					if calls != i {
						c.Fatalf("%s: operand %d is called as number %d", desc, i, calls)
					}
					calls++
					if i == which {
						return x ^ 1
					}
					return (x*3 + i) % 1000003
				}
			}
			if n == 0 {
				break
			}
			f, want := funcs.Compose(fs[0], fs[1:]...), 7
			for i := range fs {
				if i == which {
					want ^= 1
				} else {
					want = (want*3 + i) % 1000003
				}
			}
			for range 2 {
				calls = 0
				if got := f(7); got != want || calls != n {
					c.Fatalf("%s: %d, calls %d; expected %d", desc, got, calls, want)
				}
			}
		default:
			calls, handled := 0, 0
			fs := make([]func(), n)
			for i := range fs {
				fs[i] = func() {
					if calls != n-1-i {
						c.Fatalf("%s: closer %d is called as number %d", desc, i, calls)
					}
					calls++
					if i == which {
						panic(which)
					}
				}
			}
			funcs.TryTo(func() {}, func(v any) {
				handled++
				if v != any(which) || calls != n {
					c.Fatalf("%s: %v is handled after %d closers", desc, v, calls)
				}
			}, fs...)
			if calls != n || (handled == 1) != (which < n) || handled > 1 {
				c.Fatalf("%s: %d closers are called, %d panics handled", desc, calls, handled)
			}
		}
		if n > 16 {
			c.NonTrivial("%d %s", op, desc)
		}
	})
}
