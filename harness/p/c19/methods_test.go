package c19

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s diff) Equal(diff) bool  { return true }
func (s diff) Less(diff) bool   { return true }
func (s diff) Compare(diff) int { return 1 }
func (s diff) IsZero() bool {
	var z diff
	return s != z
}
func (s diff) IsNil() bool                  { return true }
func (s diff) Empty() bool                  { return true }
func (s diff) IsEmpty() bool                { return true }
func (s diff) Present() bool                { return false }
func (s diff) Valid() bool                  { return false }
func (s diff) Is(error) bool                { return true }
func (s diff) Len() int                     { return 0 }
func (s diff) Hash() uint64                 { return 0 }
func (s diff) Key() string                  { return "key" }
func (s diff) Sign() int                    { return 0 }
func (s diff) Abs() (z diff)                { return }
func (s diff) Clone() (z diff)              { return }
func (s diff) Copy() (z diff)               { return }
func (s diff) Get() (z diff)                { return }
func (s diff) Int64() (int64, error)        { return 1, nil }
func (s diff) Float64() (float64, error)    { return 1, nil }
func (s diff) Value() (any, error)          { return nil, nil }
func (s diff) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s diff) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *diff) UnmarshalText([]byte) error  { return nil }
func (s *diff) UnmarshalJSON([]byte) error  { return nil }
func (s *diff) Scan(any) error              { return nil }
func (s *diff) Set(string) error            { return nil }
func (s *diff) Close() error                { return nil }

func (s f32) Equal(f32) bool  { return true }
func (s f32) Compare(f32) int { return 1 }
func (s f32) IsZero() bool {
	var z f32
	return s != z
}
func (s f32) IsNil() bool                  { return true }
func (s f32) Empty() bool                  { return true }
func (s f32) IsEmpty() bool                { return true }
func (s f32) Present() bool                { return false }
func (s f32) Valid() bool                  { return false }
func (s f32) Is(error) bool                { return true }
func (s f32) Len() int                     { return 0 }
func (s f32) Hash() uint64                 { return 0 }
func (s f32) Key() string                  { return "key" }
func (s f32) Sign() int                    { return 0 }
func (s f32) Abs() (z f32)                 { return }
func (s f32) Clone() (z f32)               { return }
func (s f32) Copy() (z f32)                { return }
func (s f32) Get() (z f32)                 { return }
func (s f32) Int64() (int64, error)        { return 1, nil }
func (s f32) Float64() (float64, error)    { return 1, nil }
func (s f32) Value() (any, error)          { return nil, nil }
func (s f32) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s f32) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s f32) String() string               { return fmt.Sprint("1", float32(s)) }
func (s *f32) UnmarshalText([]byte) error  { return nil }
func (s *f32) UnmarshalJSON([]byte) error  { return nil }
func (s *f32) Scan(any) error              { return nil }
func (s *f32) Set(string) error            { return nil }
func (s *f32) Close() error                { return nil }

func (s f64) Equal(f64) bool  { return true }
func (s f64) Less(f64) bool   { return true }
func (s f64) Compare(f64) int { return 1 }
func (s f64) Cmp(f64) int     { return 1 }
func (s f64) IsZero() bool {
	var z f64
	return s != z
}
func (s f64) IsNil() bool                  { return true }
func (s f64) Empty() bool                  { return true }
func (s f64) IsEmpty() bool                { return true }
func (s f64) Present() bool                { return false }
func (s f64) Valid() bool                  { return false }
func (s f64) Is(error) bool                { return true }
func (s f64) Len() int                     { return 0 }
func (s f64) Hash() uint64                 { return 0 }
func (s f64) Key() string                  { return "key" }
func (s f64) Sign() int                    { return 0 }
func (s f64) Abs() (z f64)                 { return }
func (s f64) Clone() (z f64)               { return }
func (s f64) Copy() (z f64)                { return }
func (s f64) Get() (z f64)                 { return }
func (s f64) Int64() (int64, error)        { return 1, nil }
func (s f64) Float64() (float64, error)    { return 1, nil }
func (s f64) Value() (any, error)          { return nil, nil }
func (s f64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s f64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *f64) UnmarshalText([]byte) error  { return nil }
func (s *f64) UnmarshalJSON([]byte) error  { return nil }
func (s *f64) Scan(any) error              { return nil }
func (s *f64) Set(string) error            { return nil }
func (s *f64) Close() error                { return nil }

func (s i32) Equal(i32) bool  { return true }
func (s i32) Compare(i32) int { return 1 }
func (s i32) Cmp(i32) int     { return 1 }
func (s i32) IsZero() bool {
	var z i32
	return s != z
}
func (s i32) IsNil() bool                  { return true }
func (s i32) Empty() bool                  { return true }
func (s i32) IsEmpty() bool                { return true }
func (s i32) Present() bool                { return false }
func (s i32) Valid() bool                  { return false }
func (s i32) Is(error) bool                { return true }
func (s i32) Len() int                     { return 0 }
func (s i32) Hash() uint64                 { return 0 }
func (s i32) Key() string                  { return "key" }
func (s i32) Sign() int                    { return 0 }
func (s i32) Abs() (z i32)                 { return }
func (s i32) Clone() (z i32)               { return }
func (s i32) Copy() (z i32)                { return }
func (s i32) Get() (z i32)                 { return }
func (s i32) Int64() (int64, error)        { return 1, nil }
func (s i32) Float64() (float64, error)    { return 1, nil }
func (s i32) Value() (any, error)          { return nil, nil }
func (s i32) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s i32) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s i32) String() string               { return fmt.Sprint("1", int32(s)) }
func (s *i32) UnmarshalText([]byte) error  { return nil }
func (s *i32) UnmarshalJSON([]byte) error  { return nil }
func (s *i32) Scan(any) error              { return nil }
func (s *i32) Set(string) error            { return nil }
func (s *i32) Close() error                { return nil }

func (s i64) Equal(i64) bool  { return true }
func (s i64) Less(i64) bool   { return true }
func (s i64) Compare(i64) int { return 1 }
func (s i64) Cmp(i64) int     { return 1 }
func (s i64) IsZero() bool {
	var z i64
	return s != z
}
func (s i64) IsNil() bool                  { return true }
func (s i64) Empty() bool                  { return true }
func (s i64) IsEmpty() bool                { return true }
func (s i64) Present() bool                { return false }
func (s i64) Valid() bool                  { return false }
func (s i64) Is(error) bool                { return true }
func (s i64) Len() int                     { return 0 }
func (s i64) Hash() uint64                 { return 0 }
func (s i64) Key() string                  { return "key" }
func (s i64) Sign() int                    { return 0 }
func (s i64) Abs() (z i64)                 { return }
func (s i64) Clone() (z i64)               { return }
func (s i64) Copy() (z i64)                { return }
func (s i64) Get() (z i64)                 { return }
func (s i64) Int64() (int64, error)        { return 1, nil }
func (s i64) Float64() (float64, error)    { return 1, nil }
func (s i64) Value() (any, error)          { return nil, nil }
func (s i64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s i64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s i64) String() string               { return fmt.Sprint("1", int64(s)) }
func (s *i64) UnmarshalText([]byte) error  { return nil }
func (s *i64) UnmarshalJSON([]byte) error  { return nil }
func (s *i64) Scan(any) error              { return nil }
func (s *i64) Set(string) error            { return nil }
func (s *i64) Close() error                { return nil }

func (s i8) Equal(i8) bool  { return true }
func (s i8) Less(i8) bool   { return true }
func (s i8) Compare(i8) int { return 1 }
func (s i8) IsZero() bool {
	var z i8
	return s != z
}
func (s i8) IsNil() bool                  { return true }
func (s i8) Empty() bool                  { return true }
func (s i8) IsEmpty() bool                { return true }
func (s i8) Present() bool                { return false }
func (s i8) Valid() bool                  { return false }
func (s i8) Is(error) bool                { return true }
func (s i8) Len() int                     { return 0 }
func (s i8) Hash() uint64                 { return 0 }
func (s i8) Key() string                  { return "key" }
func (s i8) Sign() int                    { return 0 }
func (s i8) Abs() (z i8)                  { return }
func (s i8) Clone() (z i8)                { return }
func (s i8) Copy() (z i8)                 { return }
func (s i8) Get() (z i8)                  { return }
func (s i8) Int64() (int64, error)        { return 1, nil }
func (s i8) Float64() (float64, error)    { return 1, nil }
func (s i8) Value() (any, error)          { return nil, nil }
func (s i8) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s i8) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *i8) UnmarshalText([]byte) error  { return nil }
func (s *i8) UnmarshalJSON([]byte) error  { return nil }
func (s *i8) Scan(any) error              { return nil }
func (s *i8) Set(string) error            { return nil }
func (s *i8) Close() error                { return nil }

func (s u64) Equal(u64) bool  { return true }
func (s u64) Less(u64) bool   { return true }
func (s u64) Compare(u64) int { return 1 }
func (s u64) Cmp(u64) int     { return 1 }
func (s u64) IsZero() bool {
	var z u64
	return s != z
}
func (s u64) IsNil() bool                  { return true }
func (s u64) Empty() bool                  { return true }
func (s u64) IsEmpty() bool                { return true }
func (s u64) Present() bool                { return false }
func (s u64) Valid() bool                  { return false }
func (s u64) Is(error) bool                { return true }
func (s u64) Len() int                     { return 0 }
func (s u64) Hash() uint64                 { return 0 }
func (s u64) Key() string                  { return "key" }
func (s u64) Sign() int                    { return 0 }
func (s u64) Abs() (z u64)                 { return }
func (s u64) Clone() (z u64)               { return }
func (s u64) Copy() (z u64)                { return }
func (s u64) Get() (z u64)                 { return }
func (s u64) Int64() (int64, error)        { return 1, nil }
func (s u64) Float64() (float64, error)    { return 1, nil }
func (s u64) Value() (any, error)          { return nil, nil }
func (s u64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s u64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *u64) UnmarshalText([]byte) error  { return nil }
func (s *u64) UnmarshalJSON([]byte) error  { return nil }
func (s *u64) Scan(any) error              { return nil }
func (s *u64) Set(string) error            { return nil }
func (s *u64) Close() error                { return nil }

func (s u8) Equal(u8) bool  { return true }
func (s u8) Less(u8) bool   { return true }
func (s u8) Compare(u8) int { return 1 }
func (s u8) IsZero() bool {
	var z u8
	return s != z
}
func (s u8) IsNil() bool                  { return true }
func (s u8) Empty() bool                  { return true }
func (s u8) IsEmpty() bool                { return true }
func (s u8) Present() bool                { return false }
func (s u8) Valid() bool                  { return false }
func (s u8) Is(error) bool                { return true }
func (s u8) Len() int                     { return 0 }
func (s u8) Hash() uint64                 { return 0 }
func (s u8) Key() string                  { return "key" }
func (s u8) Sign() int                    { return 0 }
func (s u8) Abs() (z u8)                  { return }
func (s u8) Clone() (z u8)                { return }
func (s u8) Copy() (z u8)                 { return }
func (s u8) Get() (z u8)                  { return }
func (s u8) Int64() (int64, error)        { return 1, nil }
func (s u8) Float64() (float64, error)    { return 1, nil }
func (s u8) Value() (any, error)          { return nil, nil }
func (s u8) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s u8) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s u8) String() string               { return fmt.Sprint("1", uint8(s)) }
func (s *u8) UnmarshalText([]byte) error  { return nil }
func (s *u8) UnmarshalJSON([]byte) error  { return nil }
func (s *u8) Scan(any) error              { return nil }
func (s *u8) Set(string) error            { return nil }
func (s *u8) Close() error                { return nil }
