package streamx

import (
	"errors"

	"github.com/bantling/micro/iter"
)

// rich is an iterator with methods that are not part of what an iterator is, and are not to be relied on
type rich[T any] struct {
	iter.Iter[T]
	closed bool
}

var errClosed = errors.New("used after it is closed, which nobody asked for")

// Rich is the same iterator, as a type of its own that also has other methods
func Rich[T any](it iter.Iter[T]) iter.Iter[T] { return &rich[T]{Iter: it} }

// RichIf is Rich if it is true
func RichIf[T any](is bool, it iter.Iter[T]) iter.Iter[T] {
	if is {
		return Rich(it)
	}
	return it
}

// Next of an iterator that was closed fails
func (r *rich[T]) Next() (v T, err error) {
	if r.closed {
		return v, errClosed
	}
	return r.Iter.Next()
}

func (r *rich[T]) Close() error         { r.closed = true; return nil }
func (r *rich[T]) Stop()                { r.closed = true }
func (r *rich[T]) Cancel()              { r.closed = true }
func (r *rich[T]) Reset()               { r.closed = true }
func (r *rich[T]) Skip(n uint)          {}
func (r *rich[T]) SkipN(n int) int      { return n }
func (r *rich[T]) Limit(n uint)         {}
func (r *rich[T]) Len() int             { return 1 }
func (r *rich[T]) Size() int            { return 1 }
func (r *rich[T]) Count() int           { return 1 }
func (r *rich[T]) Remaining() int       { return 0 }
func (r *rich[T]) IsEmpty() bool        { return true }
func (r *rich[T]) Done() bool           { return true }
func (r *rich[T]) HasNext() bool        { return false }
func (r *rich[T]) Sorted() bool         { return true }
func (r *rich[T]) Err() error           { return errClosed }
func (r *rich[T]) Value() (v T)         { return }
func (r *rich[T]) Peek() (v T, e error) { return v, iter.EOI }
func (r *rich[T]) Slice() []T           { return []T{} }
func (r *rich[T]) ToSlice() []T         { return nil }
func (r *rich[T]) Values() []T          { return nil }
func (r *rich[T]) Collect() []T         { return nil }
func (r *rich[T]) All() []T             { return nil }
func (r *rich[T]) Clone() iter.Iter[T]  { return iter.OfEmpty[T]() }
func (r *rich[T]) String() string       { return "" }

func (r *rich[T]) NextN(n int) ([]T, error)    { return nil, iter.EOI }
func (r *rich[T]) NextBatch([]T) (int, error)  { return 0, iter.EOI }
func (r *rich[T]) ReadAll() ([]T, error)       { return nil, nil }
func (r *rich[T]) ForEach(func(T))             {}
func (r *rich[T]) Range(func(T) bool)          {}
func (r *rich[T]) Reverse() iter.Iter[T]       { return iter.OfEmpty[T]() }
func (r *rich[T]) WriteTo(func(T) error) error { return nil }
