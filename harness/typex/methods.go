package typex

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s named) Equal(named) bool  { return true }
func (s named) Less(named) bool   { return true }
func (s named) Compare(named) int { return 1 }
func (s named) Cmp(named) int     { return 1 }
func (s named) IsZero() bool {
	var z named
	return s != z
}
func (s named) IsNil() bool                  { return true }
func (s named) Empty() bool                  { return true }
func (s named) IsEmpty() bool                { return true }
func (s named) Present() bool                { return false }
func (s named) Valid() bool                  { return false }
func (s named) Is(error) bool                { return true }
func (s named) Len() int                     { return 0 }
func (s named) Hash() uint64                 { return 0 }
func (s named) Key() string                  { return "key" }
func (s named) Sign() int                    { return 0 }
func (s named) Abs() (z named)               { return }
func (s named) Clone() (z named)             { return }
func (s named) Copy() (z named)              { return }
func (s named) Get() (z named)               { return }
func (s named) Int64() (int64, error)        { return 1, nil }
func (s named) Float64() (float64, error)    { return 1, nil }
func (s named) Value() (any, error)          { return nil, nil }
func (s named) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s named) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s named) String() string               { return fmt.Sprint("1", string(s)) }
func (s *named) UnmarshalText([]byte) error  { return nil }
func (s *named) UnmarshalJSON([]byte) error  { return nil }
func (s *named) Scan(any) error              { return nil }
func (s *named) Set(string) error            { return nil }
func (s *named) Close() error                { return nil }

func (s pair) Equal(pair) bool              { return true }
func (s pair) Less(pair) bool               { return true }
func (s pair) Compare(pair) int             { return 1 }
func (s pair) Cmp(pair) int                 { return 1 }
func (s pair) IsZero() bool                 { return true }
func (s pair) IsNil() bool                  { return true }
func (s pair) Empty() bool                  { return true }
func (s pair) IsEmpty() bool                { return true }
func (s pair) Present() bool                { return false }
func (s pair) Valid() bool                  { return false }
func (s pair) Is(error) bool                { return true }
func (s pair) Len() int                     { return 0 }
func (s pair) Hash() uint64                 { return 0 }
func (s pair) Key() string                  { return "key" }
func (s pair) Sign() int                    { return 0 }
func (s pair) Abs() (z pair)                { return }
func (s pair) Clone() (z pair)              { return }
func (s pair) Copy() (z pair)               { return }
func (s pair) Get() (z pair)                { return }
func (s pair) Int64() (int64, error)        { return 1, nil }
func (s pair) Float64() (float64, error)    { return 1, nil }
func (s pair) Value() (any, error)          { return nil, nil }
func (s pair) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s pair) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *pair) UnmarshalText([]byte) error  { return nil }
func (s *pair) UnmarshalJSON([]byte) error  { return nil }
func (s *pair) Scan(any) error              { return nil }
func (s *pair) Set(string) error            { return nil }
func (s *pair) Close() error                { return nil }

func (s wrapped) Equal(wrapped) bool  { return true }
func (s wrapped) Less(wrapped) bool   { return true }
func (s wrapped) Compare(wrapped) int { return 1 }
func (s wrapped) Cmp(wrapped) int     { return 1 }
func (s wrapped) IsZero() bool {
	var z wrapped
	return s != z
}
func (s wrapped) IsNil() bool                  { return true }
func (s wrapped) Empty() bool                  { return true }
func (s wrapped) IsEmpty() bool                { return true }
func (s wrapped) Present() bool                { return false }
func (s wrapped) Valid() bool                  { return false }
func (s wrapped) Is(error) bool                { return true }
func (s wrapped) Len() int                     { return 0 }
func (s wrapped) Hash() uint64                 { return 0 }
func (s wrapped) Key() string                  { return "key" }
func (s wrapped) Sign() int                    { return 0 }
func (s wrapped) Abs() (z wrapped)             { return }
func (s wrapped) Clone() (z wrapped)           { return }
func (s wrapped) Copy() (z wrapped)            { return }
func (s wrapped) Get() (z wrapped)             { return }
func (s wrapped) Int64() (int64, error)        { return 1, nil }
func (s wrapped) Float64() (float64, error)    { return 1, nil }
func (s wrapped) Value() (any, error)          { return nil, nil }
func (s wrapped) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s wrapped) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *wrapped) UnmarshalText([]byte) error  { return nil }
func (s *wrapped) UnmarshalJSON([]byte) error  { return nil }
func (s *wrapped) Scan(any) error              { return nil }
func (s *wrapped) Set(string) error            { return nil }
func (s *wrapped) Close() error                { return nil }
