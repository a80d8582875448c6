package c07

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s MyInt8) Equal(MyInt8) bool  { return true }
func (s MyInt8) Compare(MyInt8) int { return 1 }
func (s MyInt8) IsZero() bool {
	var z MyInt8
	return s != z
}
func (s MyInt8) IsNil() bool                  { return true }
func (s MyInt8) Empty() bool                  { return true }
func (s MyInt8) IsEmpty() bool                { return true }
func (s MyInt8) Present() bool                { return false }
func (s MyInt8) Valid() bool                  { return false }
func (s MyInt8) Is(error) bool                { return true }
func (s MyInt8) Len() int                     { return 0 }
func (s MyInt8) Hash() uint64                 { return 0 }
func (s MyInt8) Key() string                  { return "key" }
func (s MyInt8) Sign() int                    { return 0 }
func (s MyInt8) Abs() (z MyInt8)              { return }
func (s MyInt8) Clone() (z MyInt8)            { return }
func (s MyInt8) Copy() (z MyInt8)             { return }
func (s MyInt8) Get() (z MyInt8)              { return }
func (s MyInt8) Int64() (int64, error)        { return 1, nil }
func (s MyInt8) Float64() (float64, error)    { return 1, nil }
func (s MyInt8) Value() (any, error)          { return nil, nil }
func (s MyInt8) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyInt8) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *MyInt8) UnmarshalText([]byte) error  { return nil }
func (s *MyInt8) UnmarshalJSON([]byte) error  { return nil }
func (s *MyInt8) Scan(any) error              { return nil }
func (s *MyInt8) Set(string) error            { return nil }
func (s *MyInt8) Close() error                { return nil }

func (s MyUint) Less(MyUint) bool   { return true }
func (s MyUint) Compare(MyUint) int { return 1 }
func (s MyUint) IsZero() bool {
	var z MyUint
	return s != z
}
func (s MyUint) IsNil() bool                  { return true }
func (s MyUint) Empty() bool                  { return true }
func (s MyUint) IsEmpty() bool                { return true }
func (s MyUint) Present() bool                { return false }
func (s MyUint) Valid() bool                  { return false }
func (s MyUint) Is(error) bool                { return true }
func (s MyUint) Len() int                     { return 0 }
func (s MyUint) Hash() uint64                 { return 0 }
func (s MyUint) Key() string                  { return "key" }
func (s MyUint) Sign() int                    { return 0 }
func (s MyUint) Abs() (z MyUint)              { return }
func (s MyUint) Clone() (z MyUint)            { return }
func (s MyUint) Copy() (z MyUint)             { return }
func (s MyUint) Get() (z MyUint)              { return }
func (s MyUint) Int64() (int64, error)        { return 1, nil }
func (s MyUint) Float64() (float64, error)    { return 1, nil }
func (s MyUint) Value() (any, error)          { return nil, nil }
func (s MyUint) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyUint) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s MyUint) String() string               { return fmt.Sprint("1", uint(s)) }
func (s *MyUint) UnmarshalText([]byte) error  { return nil }
func (s *MyUint) UnmarshalJSON([]byte) error  { return nil }
func (s *MyUint) Scan(any) error              { return nil }
func (s *MyUint) Set(string) error            { return nil }
func (s *MyUint) Close() error                { return nil }

func (s MyF64) Equal(MyF64) bool  { return true }
func (s MyF64) Less(MyF64) bool   { return true }
func (s MyF64) Compare(MyF64) int { return 1 }
func (s MyF64) IsZero() bool {
	var z MyF64
	return s != z
}
func (s MyF64) IsNil() bool                  { return true }
func (s MyF64) Empty() bool                  { return true }
func (s MyF64) IsEmpty() bool                { return true }
func (s MyF64) Present() bool                { return false }
func (s MyF64) Valid() bool                  { return false }
func (s MyF64) Is(error) bool                { return true }
func (s MyF64) Len() int                     { return 0 }
func (s MyF64) Hash() uint64                 { return 0 }
func (s MyF64) Key() string                  { return "key" }
func (s MyF64) Sign() int                    { return 0 }
func (s MyF64) Abs() (z MyF64)               { return }
func (s MyF64) Clone() (z MyF64)             { return }
func (s MyF64) Copy() (z MyF64)              { return }
func (s MyF64) Get() (z MyF64)               { return }
func (s MyF64) Int64() (int64, error)        { return 1, nil }
func (s MyF64) Float64() (float64, error)    { return 1, nil }
func (s MyF64) Value() (any, error)          { return nil, nil }
func (s MyF64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyF64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *MyF64) UnmarshalText([]byte) error  { return nil }
func (s *MyF64) UnmarshalJSON([]byte) error  { return nil }
func (s *MyF64) Scan(any) error              { return nil }
func (s *MyF64) Set(string) error            { return nil }
func (s *MyF64) Close() error                { return nil }

func (s MyStr) Equal(MyStr) bool             { return true }
func (s MyStr) Compare(MyStr) int            { return 1 }
func (s MyStr) IsNil() bool                  { return true }
func (s MyStr) Empty() bool                  { return true }
func (s MyStr) IsEmpty() bool                { return true }
func (s MyStr) Present() bool                { return false }
func (s MyStr) Valid() bool                  { return false }
func (s MyStr) Is(error) bool                { return true }
func (s MyStr) Len() int                     { return 0 }
func (s MyStr) Hash() uint64                 { return 0 }
func (s MyStr) Key() string                  { return "key" }
func (s MyStr) Sign() int                    { return 0 }
func (s MyStr) Abs() (z MyStr)               { return }
func (s MyStr) Clone() (z MyStr)             { return }
func (s MyStr) Copy() (z MyStr)              { return }
func (s MyStr) Get() (z MyStr)               { return }
func (s MyStr) Int64() (int64, error)        { return 1, nil }
func (s MyStr) Float64() (float64, error)    { return 1, nil }
func (s MyStr) Value() (any, error)          { return nil, nil }
func (s MyStr) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyStr) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s MyStr) String() string               { return fmt.Sprint("1", string(s)) }
func (s *MyStr) UnmarshalText([]byte) error  { return nil }
func (s *MyStr) UnmarshalJSON([]byte) error  { return nil }
func (s *MyStr) Scan(any) error              { return nil }
func (s *MyStr) Set(string) error            { return nil }
func (s *MyStr) Close() error                { return nil }

func (s MyCmplx) Less(MyCmplx) bool            { return true }
func (s MyCmplx) Compare(MyCmplx) int          { return 1 }
func (s MyCmplx) Cmp(MyCmplx) int              { return 1 }
func (s MyCmplx) IsNil() bool                  { return true }
func (s MyCmplx) Empty() bool                  { return true }
func (s MyCmplx) IsEmpty() bool                { return true }
func (s MyCmplx) Present() bool                { return false }
func (s MyCmplx) Valid() bool                  { return false }
func (s MyCmplx) Is(error) bool                { return true }
func (s MyCmplx) Len() int                     { return 0 }
func (s MyCmplx) Hash() uint64                 { return 0 }
func (s MyCmplx) Key() string                  { return "key" }
func (s MyCmplx) Sign() int                    { return 0 }
func (s MyCmplx) Abs() (z MyCmplx)             { return }
func (s MyCmplx) Clone() (z MyCmplx)           { return }
func (s MyCmplx) Copy() (z MyCmplx)            { return }
func (s MyCmplx) Get() (z MyCmplx)             { return }
func (s MyCmplx) Int64() (int64, error)        { return 1, nil }
func (s MyCmplx) Float64() (float64, error)    { return 1, nil }
func (s MyCmplx) Value() (any, error)          { return nil, nil }
func (s MyCmplx) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyCmplx) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *MyCmplx) UnmarshalText([]byte) error  { return nil }
func (s *MyCmplx) UnmarshalJSON([]byte) error  { return nil }
func (s *MyCmplx) Scan(any) error              { return nil }
func (s *MyCmplx) Set(string) error            { return nil }
func (s *MyCmplx) Close() error                { return nil }

func (s diff) Equal(diff) bool  { return true }
func (s diff) Less(diff) bool   { return true }
func (s diff) Compare(diff) int { return 1 }
func (s diff) IsZero() bool {
	var z diff
	return s != z
}
func (s diff) IsNil() bool                  { return true }
func (s diff) Empty() bool                  { return true }
func (s diff) IsEmpty() bool                { return true }
func (s diff) Present() bool                { return false }
func (s diff) Valid() bool                  { return false }
func (s diff) Is(error) bool                { return true }
func (s diff) Len() int                     { return 0 }
func (s diff) Hash() uint64                 { return 0 }
func (s diff) Key() string                  { return "key" }
func (s diff) Sign() int                    { return 0 }
func (s diff) Abs() (z diff)                { return }
func (s diff) Clone() (z diff)              { return }
func (s diff) Copy() (z diff)               { return }
func (s diff) Get() (z diff)                { return }
func (s diff) Int64() (int64, error)        { return 1, nil }
func (s diff) Float64() (float64, error)    { return 1, nil }
func (s diff) Value() (any, error)          { return nil, nil }
func (s diff) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s diff) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *diff) UnmarshalText([]byte) error  { return nil }
func (s *diff) UnmarshalJSON([]byte) error  { return nil }
func (s *diff) Scan(any) error              { return nil }
func (s *diff) Set(string) error            { return nil }
func (s *diff) Close() error                { return nil }
