// Package typex has elements of all kinds of types, for functions that work for any type of elements.
package typex

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/bantling/micro/union"
	"verif/harness/vt"
)

// Of is some values of a type.
type Of[T any] struct {
	Name string
	Pool []T
}

// Draw draws up to n values.
func (o Of[T]) Draw(c *vt.C, n int, label string) []T {
	v := make([]T, c.Range(0, n, label+".len"), n+2)
	for i := range v {
		v[i] = o.One(c, label)
	}
	return v
}

// One draws a value.
func (o Of[T]) One(c *vt.C, label string) T {
	return o.Pool[c.Range(0, len(o.Pool)-1, label)]
}

// Key tells values apart, also those that are not comparable, and negative zero from zero.
func Key[T any](v T) string {
	if bi, isa := any(v).(*big.Int); isa {
		return fmt.Sprintf("%p", bi)
	}
	return fmt.Sprintf("%T %#v", v, v)
}

// Keys are the keys of all values.
func Keys[T any](vs []T) []string {
	r := make([]string, len(vs))
	for i, v := range vs {
		r[i] = Key(v)
	}
	return r
}

// Same is true if the values are the same.
func Same[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if Key(a[i]) != Key(b[i]) {
			return false
		}
	}
	return true
}

type pair struct {
	a any
	b *int
}

type named string

func (n named) Error() string { return string(n) }

var (
	i, j = 0, 0
	f    = func(x int) int { return x }
	g    = func(x int) int { return -x }
	ch   = make(chan int)
)

// The types.
var (
	Any = Of[any]{"any", []any{nil, 0, "", false, (*int)(nil), &i, struct{}{}, []int(nil), map[int]int(nil), errors.New("x"), named(""), named("a"), math.NaN(), [0]int{}, f, io.EOF, pair{}, &pair{}, time.Time{}, time.Unix(0, 0), union.Maybe[int]{}, wrapped{}}}
	Err = Of[error]{"error", []error{nil, named(""), named("e"), io.EOF, io.ErrUnexpectedEOF, errors.New("x"), (*wrapped)(nil)}}
	Str = Of[fmt.Stringer]{"fmt.Stringer", []fmt.Stringer{nil, big.NewInt(0), big.NewInt(0), (*big.Int)(nil), (*strings.Builder)(nil)}}
	Ptr = Of[*int]{"*int", []*int{nil, &i, &j}}
	PP  = Of[**int]{"**int", func() []**int { var n *int; p := &i; return []**int{nil, &n, &p} }()}
	Nul = Of[struct{}]{"struct{}", []struct{}{{}}}
	Arr = Of[[0]string]{"[0]string", [][0]string{{}}}
	A2  = Of[[2]any]{"[2]any", [][2]any{{}, {1, nil}, {nil, 1}}}
	Slc = Of[[]int]{"[]int", [][]int{nil, {}, {0}, {0, 0}}}
	Map = Of[map[string]int]{"map[string]int", []map[string]int{nil, {}, {"": 0}}}
	Fun = Of[func(int) int]{"func", []func(int) int{nil, f, g}}
	Chn = Of[chan int]{"chan int", []chan int{nil, ch, make(chan int, 1)}}
	Prs = Of[pair]{"struct", []pair{{}, {b: &i}, {a: []int{}}, {a: 0}, {a: 1}}}
	Flt = Of[float64]{"float64", []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1, 5e-324}}
	Cpl = Of[complex64]{"complex64", []complex64{0, 1i, complex(0, float32(math.Copysign(0, -1))), complex(float32(math.NaN()), 0)}}
	Txt = Of[string]{"string", []string{"", "\x00", "a", "\xff", "\ufffd", "é", "e\u0301"}}
	Bol = Of[bool]{"bool", []bool{false, true}}
	I8  = Of[int8]{"int8", []int8{0, -128, 127, -1, 1}}
	U64 = Of[uint64]{"uint64", []uint64{0, 1, math.MaxUint64, 1 << 63}}
	Big = Of[*big.Int]{"*big.Int", []*big.Int{nil, new(big.Int), new(big.Int), big.NewInt(-1)}}
)

type wrapped struct{}

func (*wrapped) Error() string { return "wrapped" }
