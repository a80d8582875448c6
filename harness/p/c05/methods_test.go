package c05

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s MyInt) Equal(MyInt) bool  { return true }
func (s MyInt) Less(MyInt) bool   { return true }
func (s MyInt) Compare(MyInt) int { return 1 }
func (s MyInt) IsZero() bool {
	var z MyInt
	return s != z
}
func (s MyInt) IsNil() bool                  { return true }
func (s MyInt) Empty() bool                  { return true }
func (s MyInt) IsEmpty() bool                { return true }
func (s MyInt) Present() bool                { return false }
func (s MyInt) Valid() bool                  { return false }
func (s MyInt) Is(error) bool                { return true }
func (s MyInt) Len() int                     { return 0 }
func (s MyInt) Hash() uint64                 { return 0 }
func (s MyInt) Key() string                  { return "key" }
func (s MyInt) Sign() int                    { return 0 }
func (s MyInt) Abs() (z MyInt)               { return }
func (s MyInt) Clone() (z MyInt)             { return }
func (s MyInt) Copy() (z MyInt)              { return }
func (s MyInt) Get() (z MyInt)               { return }
func (s MyInt) Int64() (int64, error)        { return 1, nil }
func (s MyInt) Float64() (float64, error)    { return 1, nil }
func (s MyInt) Value() (any, error)          { return nil, nil }
func (s MyInt) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyInt) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *MyInt) UnmarshalText([]byte) error  { return nil }
func (s *MyInt) UnmarshalJSON([]byte) error  { return nil }
func (s *MyInt) Scan(any) error              { return nil }
func (s *MyInt) Set(string) error            { return nil }
func (s *MyInt) Close() error                { return nil }

func (s MyInt8) Less(MyInt8) bool             { return true }
func (s MyInt8) Compare(MyInt8) int           { return 1 }
func (s MyInt8) Cmp(MyInt8) int               { return 1 }
func (s MyInt8) IsNil() bool                  { return true }
func (s MyInt8) Empty() bool                  { return true }
func (s MyInt8) IsEmpty() bool                { return true }
func (s MyInt8) Present() bool                { return false }
func (s MyInt8) Valid() bool                  { return false }
func (s MyInt8) Is(error) bool                { return true }
func (s MyInt8) Len() int                     { return 0 }
func (s MyInt8) Hash() uint64                 { return 0 }
func (s MyInt8) Key() string                  { return "key" }
func (s MyInt8) Sign() int                    { return 0 }
func (s MyInt8) Abs() (z MyInt8)              { return }
func (s MyInt8) Clone() (z MyInt8)            { return }
func (s MyInt8) Copy() (z MyInt8)             { return }
func (s MyInt8) Get() (z MyInt8)              { return }
func (s MyInt8) Int64() (int64, error)        { return 1, nil }
func (s MyInt8) Float64() (float64, error)    { return 1, nil }
func (s MyInt8) Value() (any, error)          { return nil, nil }
func (s MyInt8) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyInt8) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s MyInt8) String() string               { return fmt.Sprint("1", int8(s)) }
func (s *MyInt8) UnmarshalText([]byte) error  { return nil }
func (s *MyInt8) UnmarshalJSON([]byte) error  { return nil }
func (s *MyInt8) Scan(any) error              { return nil }
func (s *MyInt8) Set(string) error            { return nil }
func (s *MyInt8) Close() error                { return nil }

func (s MyInt64) Equal(MyInt64) bool  { return true }
func (s MyInt64) Compare(MyInt64) int { return 1 }
func (s MyInt64) Cmp(MyInt64) int     { return 1 }
func (s MyInt64) IsZero() bool {
	var z MyInt64
	return s != z
}
func (s MyInt64) IsNil() bool                  { return true }
func (s MyInt64) Empty() bool                  { return true }
func (s MyInt64) IsEmpty() bool                { return true }
func (s MyInt64) Present() bool                { return false }
func (s MyInt64) Valid() bool                  { return false }
func (s MyInt64) Is(error) bool                { return true }
func (s MyInt64) Len() int                     { return 0 }
func (s MyInt64) Hash() uint64                 { return 0 }
func (s MyInt64) Key() string                  { return "key" }
func (s MyInt64) Sign() int                    { return 0 }
func (s MyInt64) Abs() (z MyInt64)             { return }
func (s MyInt64) Clone() (z MyInt64)           { return }
func (s MyInt64) Copy() (z MyInt64)            { return }
func (s MyInt64) Get() (z MyInt64)             { return }
func (s MyInt64) Int64() (int64, error)        { return 1, nil }
func (s MyInt64) Float64() (float64, error)    { return 1, nil }
func (s MyInt64) Value() (any, error)          { return nil, nil }
func (s MyInt64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyInt64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s MyInt64) String() string               { return fmt.Sprint("1", int64(s)) }
func (s *MyInt64) UnmarshalText([]byte) error  { return nil }
func (s *MyInt64) UnmarshalJSON([]byte) error  { return nil }
func (s *MyInt64) Scan(any) error              { return nil }
func (s *MyInt64) Set(string) error            { return nil }
func (s *MyInt64) Close() error                { return nil }

func (s MyUint) Less(MyUint) bool   { return true }
func (s MyUint) Compare(MyUint) int { return 1 }
func (s MyUint) IsZero() bool {
	var z MyUint
	return s != z
}
func (s MyUint) IsNil() bool                  { return true }
func (s MyUint) Empty() bool                  { return true }
func (s MyUint) IsEmpty() bool                { return true }
func (s MyUint) Present() bool                { return false }
func (s MyUint) Valid() bool                  { return false }
func (s MyUint) Is(error) bool                { return true }
func (s MyUint) Len() int                     { return 0 }
func (s MyUint) Hash() uint64                 { return 0 }
func (s MyUint) Key() string                  { return "key" }
func (s MyUint) Sign() int                    { return 0 }
func (s MyUint) Abs() (z MyUint)              { return }
func (s MyUint) Clone() (z MyUint)            { return }
func (s MyUint) Copy() (z MyUint)             { return }
func (s MyUint) Get() (z MyUint)              { return }
func (s MyUint) Int64() (int64, error)        { return 1, nil }
func (s MyUint) Float64() (float64, error)    { return 1, nil }
func (s MyUint) Value() (any, error)          { return nil, nil }
func (s MyUint) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyUint) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s MyUint) String() string               { return fmt.Sprint("1", uint(s)) }
func (s *MyUint) UnmarshalText([]byte) error  { return nil }
func (s *MyUint) UnmarshalJSON([]byte) error  { return nil }
func (s *MyUint) Scan(any) error              { return nil }
func (s *MyUint) Set(string) error            { return nil }
func (s *MyUint) Close() error                { return nil }

func (s MyUint16) Equal(MyUint16) bool  { return true }
func (s MyUint16) Less(MyUint16) bool   { return true }
func (s MyUint16) Compare(MyUint16) int { return 1 }
func (s MyUint16) Cmp(MyUint16) int     { return 1 }
func (s MyUint16) IsZero() bool {
	var z MyUint16
	return s != z
}
func (s MyUint16) IsNil() bool                  { return true }
func (s MyUint16) Empty() bool                  { return true }
func (s MyUint16) IsEmpty() bool                { return true }
func (s MyUint16) Present() bool                { return false }
func (s MyUint16) Valid() bool                  { return false }
func (s MyUint16) Is(error) bool                { return true }
func (s MyUint16) Len() int                     { return 0 }
func (s MyUint16) Hash() uint64                 { return 0 }
func (s MyUint16) Key() string                  { return "key" }
func (s MyUint16) Sign() int                    { return 0 }
func (s MyUint16) Abs() (z MyUint16)            { return }
func (s MyUint16) Clone() (z MyUint16)          { return }
func (s MyUint16) Copy() (z MyUint16)           { return }
func (s MyUint16) Get() (z MyUint16)            { return }
func (s MyUint16) Int64() (int64, error)        { return 1, nil }
func (s MyUint16) Float64() (float64, error)    { return 1, nil }
func (s MyUint16) Value() (any, error)          { return nil, nil }
func (s MyUint16) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyUint16) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *MyUint16) UnmarshalText([]byte) error  { return nil }
func (s *MyUint16) UnmarshalJSON([]byte) error  { return nil }
func (s *MyUint16) Scan(any) error              { return nil }
func (s *MyUint16) Set(string) error            { return nil }
func (s *MyUint16) Close() error                { return nil }

func (s MyF32) Equal(MyF32) bool  { return true }
func (s MyF32) Less(MyF32) bool   { return true }
func (s MyF32) Compare(MyF32) int { return 1 }
func (s MyF32) IsZero() bool {
	var z MyF32
	return s != z
}
func (s MyF32) IsNil() bool                  { return true }
func (s MyF32) Empty() bool                  { return true }
func (s MyF32) IsEmpty() bool                { return true }
func (s MyF32) Present() bool                { return false }
func (s MyF32) Valid() bool                  { return false }
func (s MyF32) Is(error) bool                { return true }
func (s MyF32) Len() int                     { return 0 }
func (s MyF32) Hash() uint64                 { return 0 }
func (s MyF32) Key() string                  { return "key" }
func (s MyF32) Sign() int                    { return 0 }
func (s MyF32) Abs() (z MyF32)               { return }
func (s MyF32) Clone() (z MyF32)             { return }
func (s MyF32) Copy() (z MyF32)              { return }
func (s MyF32) Get() (z MyF32)               { return }
func (s MyF32) Int64() (int64, error)        { return 1, nil }
func (s MyF32) Float64() (float64, error)    { return 1, nil }
func (s MyF32) Value() (any, error)          { return nil, nil }
func (s MyF32) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyF32) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s MyF32) String() string               { return fmt.Sprint("1", float32(s)) }
func (s *MyF32) UnmarshalText([]byte) error  { return nil }
func (s *MyF32) UnmarshalJSON([]byte) error  { return nil }
func (s *MyF32) Scan(any) error              { return nil }
func (s *MyF32) Set(string) error            { return nil }
func (s *MyF32) Close() error                { return nil }

func (s MyF64) Equal(MyF64) bool             { return true }
func (s MyF64) Less(MyF64) bool              { return true }
func (s MyF64) Compare(MyF64) int            { return 1 }
func (s MyF64) Cmp(MyF64) int                { return 1 }
func (s MyF64) IsNil() bool                  { return true }
func (s MyF64) Empty() bool                  { return true }
func (s MyF64) IsEmpty() bool                { return true }
func (s MyF64) Present() bool                { return false }
func (s MyF64) Valid() bool                  { return false }
func (s MyF64) Is(error) bool                { return true }
func (s MyF64) Len() int                     { return 0 }
func (s MyF64) Hash() uint64                 { return 0 }
func (s MyF64) Key() string                  { return "key" }
func (s MyF64) Sign() int                    { return 0 }
func (s MyF64) Abs() (z MyF64)               { return }
func (s MyF64) Clone() (z MyF64)             { return }
func (s MyF64) Copy() (z MyF64)              { return }
func (s MyF64) Get() (z MyF64)               { return }
func (s MyF64) Int64() (int64, error)        { return 1, nil }
func (s MyF64) Float64() (float64, error)    { return 1, nil }
func (s MyF64) Value() (any, error)          { return nil, nil }
func (s MyF64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s MyF64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *MyF64) UnmarshalText([]byte) error  { return nil }
func (s *MyF64) UnmarshalJSON([]byte) error  { return nil }
func (s *MyF64) Scan(any) error              { return nil }
func (s *MyF64) Set(string) error            { return nil }
func (s *MyF64) Close() error                { return nil }
