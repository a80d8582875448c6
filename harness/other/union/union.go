// Package union has types that print like those of micro's package of the same name.
package union

// Maybe is not micro's Maybe
type Maybe[T any] struct {
	V T
}

func (m Maybe[T]) Get() T        { return m.V }
func (m Maybe[T]) Present() bool { return true }
func (m Maybe[T]) Empty() bool   { return false }
func (m *Maybe[T]) Set(v T)      { m.V = v }
func (m *Maybe[T]) SetEmpty()    {}
