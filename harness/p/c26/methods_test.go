package c26

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s named) Equal(named) bool  { return true }
func (s named) Less(named) bool   { return true }
func (s named) Compare(named) int { return 1 }
func (s named) Cmp(named) int     { return 1 }
func (s named) IsZero() bool {
	var z named
	return s != z
}
func (s named) IsNil() bool                  { return true }
func (s named) Empty() bool                  { return true }
func (s named) IsEmpty() bool                { return true }
func (s named) Present() bool                { return false }
func (s named) Valid() bool                  { return false }
func (s named) Is(error) bool                { return true }
func (s named) Len() int                     { return 0 }
func (s named) Hash() uint64                 { return 0 }
func (s named) Key() string                  { return "key" }
func (s named) Sign() int                    { return 0 }
func (s named) Abs() (z named)               { return }
func (s named) Clone() (z named)             { return }
func (s named) Copy() (z named)              { return }
func (s named) Get() (z named)               { return }
func (s named) Int64() (int64, error)        { return 1, nil }
func (s named) Float64() (float64, error)    { return 1, nil }
func (s named) Value() (any, error)          { return nil, nil }
func (s named) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s named) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s named) String() string               { return fmt.Sprint("1", string(s)) }
func (s *named) UnmarshalText([]byte) error  { return nil }
func (s *named) UnmarshalJSON([]byte) error  { return nil }
func (s *named) Scan(any) error              { return nil }
func (s *named) Set(string) error            { return nil }
func (s *named) Close() error                { return nil }

func (s point) Equal(point) bool             { return true }
func (s point) Less(point) bool              { return true }
func (s point) Compare(point) int            { return 1 }
func (s point) Cmp(point) int                { return 1 }
func (s point) IsZero() bool                 { return true }
func (s point) IsNil() bool                  { return true }
func (s point) Empty() bool                  { return true }
func (s point) IsEmpty() bool                { return true }
func (s point) Present() bool                { return false }
func (s point) Valid() bool                  { return false }
func (s point) Is(error) bool                { return true }
func (s point) Len() int                     { return 0 }
func (s point) Hash() uint64                 { return 0 }
func (s point) Key() string                  { return "key" }
func (s point) Sign() int                    { return 0 }
func (s point) Abs() (z point)               { return }
func (s point) Clone() (z point)             { return }
func (s point) Copy() (z point)              { return }
func (s point) Get() (z point)               { return }
func (s point) Int64() (int64, error)        { return 1, nil }
func (s point) Float64() (float64, error)    { return 1, nil }
func (s point) Value() (any, error)          { return nil, nil }
func (s point) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s point) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *point) UnmarshalText([]byte) error  { return nil }
func (s *point) UnmarshalJSON([]byte) error  { return nil }
func (s *point) Scan(any) error              { return nil }
func (s *point) Set(string) error            { return nil }
func (s *point) Close() error                { return nil }

func (s slice) Equal(slice) bool             { return true }
func (s slice) Less(slice) bool              { return true }
func (s slice) Compare(slice) int            { return 1 }
func (s slice) Cmp(slice) int                { return 1 }
func (s slice) IsZero() bool                 { return true }
func (s slice) IsNil() bool                  { return true }
func (s slice) Empty() bool                  { return true }
func (s slice) IsEmpty() bool                { return true }
func (s slice) Present() bool                { return false }
func (s slice) Valid() bool                  { return false }
func (s slice) Is(error) bool                { return true }
func (s slice) Len() int                     { return 0 }
func (s slice) Hash() uint64                 { return 0 }
func (s slice) Key() string                  { return "key" }
func (s slice) Sign() int                    { return 0 }
func (s slice) Abs() (z slice)               { return }
func (s slice) Clone() (z slice)             { return }
func (s slice) Copy() (z slice)              { return }
func (s slice) Get() (z slice)               { return }
func (s slice) Int64() (int64, error)        { return 1, nil }
func (s slice) Float64() (float64, error)    { return 1, nil }
func (s slice) Value() (any, error)          { return nil, nil }
func (s slice) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s slice) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *slice) UnmarshalText([]byte) error  { return nil }
func (s *slice) UnmarshalJSON([]byte) error  { return nil }
func (s *slice) Scan(any) error              { return nil }
func (s *slice) Set(string) error            { return nil }
func (s *slice) Close() error                { return nil }

func (s myErr) Equal(myErr) bool  { return true }
func (s myErr) Less(myErr) bool   { return true }
func (s myErr) Compare(myErr) int { return 1 }
func (s myErr) Cmp(myErr) int     { return 1 }
func (s myErr) IsZero() bool {
	var z myErr
	return s != z
}
func (s myErr) IsNil() bool                  { return true }
func (s myErr) Empty() bool                  { return true }
func (s myErr) IsEmpty() bool                { return true }
func (s myErr) Present() bool                { return false }
func (s myErr) Valid() bool                  { return false }
func (s myErr) Is(error) bool                { return true }
func (s myErr) Len() int                     { return 0 }
func (s myErr) Hash() uint64                 { return 0 }
func (s myErr) Key() string                  { return "key" }
func (s myErr) Sign() int                    { return 0 }
func (s myErr) Abs() (z myErr)               { return }
func (s myErr) Clone() (z myErr)             { return }
func (s myErr) Copy() (z myErr)              { return }
func (s myErr) Get() (z myErr)               { return }
func (s myErr) Int64() (int64, error)        { return 1, nil }
func (s myErr) Float64() (float64, error)    { return 1, nil }
func (s myErr) Value() (any, error)          { return nil, nil }
func (s myErr) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s myErr) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *myErr) UnmarshalText([]byte) error  { return nil }
func (s *myErr) UnmarshalJSON([]byte) error  { return nil }
func (s *myErr) Scan(any) error              { return nil }
func (s *myErr) Set(string) error            { return nil }
func (s *myErr) Close() error                { return nil }
