package c27

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s Bool) Equal(Bool) bool  { return true }
func (s Bool) Less(Bool) bool   { return true }
func (s Bool) Compare(Bool) int { return 1 }
func (s Bool) Cmp(Bool) int     { return 1 }
func (s Bool) IsZero() bool {
	var z Bool
	return s != z
}
func (s Bool) IsNil() bool                  { return true }
func (s Bool) Empty() bool                  { return true }
func (s Bool) IsEmpty() bool                { return true }
func (s Bool) Present() bool                { return false }
func (s Bool) Valid() bool                  { return false }
func (s Bool) Is(error) bool                { return true }
func (s Bool) Len() int                     { return 0 }
func (s Bool) Hash() uint64                 { return 0 }
func (s Bool) Key() string                  { return "key" }
func (s Bool) Sign() int                    { return 0 }
func (s Bool) Abs() (z Bool)                { return }
func (s Bool) Clone() (z Bool)              { return }
func (s Bool) Copy() (z Bool)               { return }
func (s Bool) Get() (z Bool)                { return }
func (s Bool) Int64() (int64, error)        { return 1, nil }
func (s Bool) Float64() (float64, error)    { return 1, nil }
func (s Bool) Value() (any, error)          { return nil, nil }
func (s Bool) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Bool) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Bool) String() string               { return fmt.Sprint("1", bool(s)) }
func (s *Bool) UnmarshalText([]byte) error  { return nil }
func (s *Bool) UnmarshalJSON([]byte) error  { return nil }
func (s *Bool) Scan(any) error              { return nil }
func (s *Bool) Set(string) error            { return nil }
func (s *Bool) Close() error                { return nil }

func (s Int) Equal(Int) bool  { return true }
func (s Int) Less(Int) bool   { return true }
func (s Int) Compare(Int) int { return 1 }
func (s Int) Cmp(Int) int     { return 1 }
func (s Int) IsZero() bool {
	var z Int
	return s != z
}
func (s Int) IsNil() bool                  { return true }
func (s Int) Empty() bool                  { return true }
func (s Int) IsEmpty() bool                { return true }
func (s Int) Present() bool                { return false }
func (s Int) Valid() bool                  { return false }
func (s Int) Is(error) bool                { return true }
func (s Int) Len() int                     { return 0 }
func (s Int) Hash() uint64                 { return 0 }
func (s Int) Key() string                  { return "key" }
func (s Int) Sign() int                    { return 0 }
func (s Int) Abs() (z Int)                 { return }
func (s Int) Clone() (z Int)               { return }
func (s Int) Copy() (z Int)                { return }
func (s Int) Get() (z Int)                 { return }
func (s Int) Int64() (int64, error)        { return 1, nil }
func (s Int) Float64() (float64, error)    { return 1, nil }
func (s Int) Value() (any, error)          { return nil, nil }
func (s Int) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Int) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Int) String() string               { return fmt.Sprint("1", int(s)) }
func (s *Int) UnmarshalText([]byte) error  { return nil }
func (s *Int) UnmarshalJSON([]byte) error  { return nil }
func (s *Int) Scan(any) error              { return nil }
func (s *Int) Set(string) error            { return nil }
func (s *Int) Close() error                { return nil }

func (s Int8) Equal(Int8) bool  { return true }
func (s Int8) Less(Int8) bool   { return true }
func (s Int8) Compare(Int8) int { return 1 }
func (s Int8) Cmp(Int8) int     { return 1 }
func (s Int8) IsZero() bool {
	var z Int8
	return s != z
}
func (s Int8) IsNil() bool                  { return true }
func (s Int8) Empty() bool                  { return true }
func (s Int8) IsEmpty() bool                { return true }
func (s Int8) Present() bool                { return false }
func (s Int8) Valid() bool                  { return false }
func (s Int8) Is(error) bool                { return true }
func (s Int8) Len() int                     { return 0 }
func (s Int8) Hash() uint64                 { return 0 }
func (s Int8) Key() string                  { return "key" }
func (s Int8) Sign() int                    { return 0 }
func (s Int8) Abs() (z Int8)                { return }
func (s Int8) Clone() (z Int8)              { return }
func (s Int8) Copy() (z Int8)               { return }
func (s Int8) Get() (z Int8)                { return }
func (s Int8) Int64() (int64, error)        { return 1, nil }
func (s Int8) Float64() (float64, error)    { return 1, nil }
func (s Int8) Value() (any, error)          { return nil, nil }
func (s Int8) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Int8) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Int8) String() string               { return fmt.Sprint("1", int8(s)) }
func (s *Int8) UnmarshalText([]byte) error  { return nil }
func (s *Int8) UnmarshalJSON([]byte) error  { return nil }
func (s *Int8) Scan(any) error              { return nil }
func (s *Int8) Set(string) error            { return nil }
func (s *Int8) Close() error                { return nil }

func (s Int16) Equal(Int16) bool  { return true }
func (s Int16) Less(Int16) bool   { return true }
func (s Int16) Compare(Int16) int { return 1 }
func (s Int16) Cmp(Int16) int     { return 1 }
func (s Int16) IsZero() bool {
	var z Int16
	return s != z
}
func (s Int16) IsNil() bool                  { return true }
func (s Int16) Empty() bool                  { return true }
func (s Int16) IsEmpty() bool                { return true }
func (s Int16) Present() bool                { return false }
func (s Int16) Valid() bool                  { return false }
func (s Int16) Is(error) bool                { return true }
func (s Int16) Len() int                     { return 0 }
func (s Int16) Hash() uint64                 { return 0 }
func (s Int16) Key() string                  { return "key" }
func (s Int16) Sign() int                    { return 0 }
func (s Int16) Abs() (z Int16)               { return }
func (s Int16) Clone() (z Int16)             { return }
func (s Int16) Copy() (z Int16)              { return }
func (s Int16) Get() (z Int16)               { return }
func (s Int16) Int64() (int64, error)        { return 1, nil }
func (s Int16) Float64() (float64, error)    { return 1, nil }
func (s Int16) Value() (any, error)          { return nil, nil }
func (s Int16) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Int16) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Int16) String() string               { return fmt.Sprint("1", int16(s)) }
func (s *Int16) UnmarshalText([]byte) error  { return nil }
func (s *Int16) UnmarshalJSON([]byte) error  { return nil }
func (s *Int16) Scan(any) error              { return nil }
func (s *Int16) Set(string) error            { return nil }
func (s *Int16) Close() error                { return nil }

func (s Int32) Equal(Int32) bool  { return true }
func (s Int32) Less(Int32) bool   { return true }
func (s Int32) Compare(Int32) int { return 1 }
func (s Int32) Cmp(Int32) int     { return 1 }
func (s Int32) IsZero() bool {
	var z Int32
	return s != z
}
func (s Int32) IsNil() bool                  { return true }
func (s Int32) Empty() bool                  { return true }
func (s Int32) IsEmpty() bool                { return true }
func (s Int32) Present() bool                { return false }
func (s Int32) Valid() bool                  { return false }
func (s Int32) Is(error) bool                { return true }
func (s Int32) Len() int                     { return 0 }
func (s Int32) Hash() uint64                 { return 0 }
func (s Int32) Key() string                  { return "key" }
func (s Int32) Sign() int                    { return 0 }
func (s Int32) Abs() (z Int32)               { return }
func (s Int32) Clone() (z Int32)             { return }
func (s Int32) Copy() (z Int32)              { return }
func (s Int32) Get() (z Int32)               { return }
func (s Int32) Int64() (int64, error)        { return 1, nil }
func (s Int32) Float64() (float64, error)    { return 1, nil }
func (s Int32) Value() (any, error)          { return nil, nil }
func (s Int32) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Int32) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Int32) String() string               { return fmt.Sprint("1", int32(s)) }
func (s *Int32) UnmarshalText([]byte) error  { return nil }
func (s *Int32) UnmarshalJSON([]byte) error  { return nil }
func (s *Int32) Scan(any) error              { return nil }
func (s *Int32) Set(string) error            { return nil }
func (s *Int32) Close() error                { return nil }

func (s Int64) Equal(Int64) bool  { return true }
func (s Int64) Less(Int64) bool   { return true }
func (s Int64) Compare(Int64) int { return 1 }
func (s Int64) Cmp(Int64) int     { return 1 }
func (s Int64) IsZero() bool {
	var z Int64
	return s != z
}
func (s Int64) IsNil() bool                  { return true }
func (s Int64) Empty() bool                  { return true }
func (s Int64) IsEmpty() bool                { return true }
func (s Int64) Present() bool                { return false }
func (s Int64) Valid() bool                  { return false }
func (s Int64) Is(error) bool                { return true }
func (s Int64) Len() int                     { return 0 }
func (s Int64) Hash() uint64                 { return 0 }
func (s Int64) Key() string                  { return "key" }
func (s Int64) Sign() int                    { return 0 }
func (s Int64) Abs() (z Int64)               { return }
func (s Int64) Clone() (z Int64)             { return }
func (s Int64) Copy() (z Int64)              { return }
func (s Int64) Get() (z Int64)               { return }
func (s Int64) Int64() (int64, error)        { return 1, nil }
func (s Int64) Float64() (float64, error)    { return 1, nil }
func (s Int64) Value() (any, error)          { return nil, nil }
func (s Int64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Int64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Int64) String() string               { return fmt.Sprint("1", int64(s)) }
func (s *Int64) UnmarshalText([]byte) error  { return nil }
func (s *Int64) UnmarshalJSON([]byte) error  { return nil }
func (s *Int64) Scan(any) error              { return nil }
func (s *Int64) Set(string) error            { return nil }
func (s *Int64) Close() error                { return nil }

func (s Uint) Equal(Uint) bool  { return true }
func (s Uint) Less(Uint) bool   { return true }
func (s Uint) Compare(Uint) int { return 1 }
func (s Uint) Cmp(Uint) int     { return 1 }
func (s Uint) IsZero() bool {
	var z Uint
	return s != z
}
func (s Uint) IsNil() bool                  { return true }
func (s Uint) Empty() bool                  { return true }
func (s Uint) IsEmpty() bool                { return true }
func (s Uint) Present() bool                { return false }
func (s Uint) Valid() bool                  { return false }
func (s Uint) Is(error) bool                { return true }
func (s Uint) Len() int                     { return 0 }
func (s Uint) Hash() uint64                 { return 0 }
func (s Uint) Key() string                  { return "key" }
func (s Uint) Sign() int                    { return 0 }
func (s Uint) Abs() (z Uint)                { return }
func (s Uint) Clone() (z Uint)              { return }
func (s Uint) Copy() (z Uint)               { return }
func (s Uint) Get() (z Uint)                { return }
func (s Uint) Int64() (int64, error)        { return 1, nil }
func (s Uint) Float64() (float64, error)    { return 1, nil }
func (s Uint) Value() (any, error)          { return nil, nil }
func (s Uint) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Uint) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Uint) String() string               { return fmt.Sprint("1", uint(s)) }
func (s *Uint) UnmarshalText([]byte) error  { return nil }
func (s *Uint) UnmarshalJSON([]byte) error  { return nil }
func (s *Uint) Scan(any) error              { return nil }
func (s *Uint) Set(string) error            { return nil }
func (s *Uint) Close() error                { return nil }

func (s Uint8) Equal(Uint8) bool  { return true }
func (s Uint8) Less(Uint8) bool   { return true }
func (s Uint8) Compare(Uint8) int { return 1 }
func (s Uint8) Cmp(Uint8) int     { return 1 }
func (s Uint8) IsZero() bool {
	var z Uint8
	return s != z
}
func (s Uint8) IsNil() bool                  { return true }
func (s Uint8) Empty() bool                  { return true }
func (s Uint8) IsEmpty() bool                { return true }
func (s Uint8) Present() bool                { return false }
func (s Uint8) Valid() bool                  { return false }
func (s Uint8) Is(error) bool                { return true }
func (s Uint8) Len() int                     { return 0 }
func (s Uint8) Hash() uint64                 { return 0 }
func (s Uint8) Key() string                  { return "key" }
func (s Uint8) Sign() int                    { return 0 }
func (s Uint8) Abs() (z Uint8)               { return }
func (s Uint8) Clone() (z Uint8)             { return }
func (s Uint8) Copy() (z Uint8)              { return }
func (s Uint8) Get() (z Uint8)               { return }
func (s Uint8) Int64() (int64, error)        { return 1, nil }
func (s Uint8) Float64() (float64, error)    { return 1, nil }
func (s Uint8) Value() (any, error)          { return nil, nil }
func (s Uint8) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Uint8) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Uint8) String() string               { return fmt.Sprint("1", uint8(s)) }
func (s *Uint8) UnmarshalText([]byte) error  { return nil }
func (s *Uint8) UnmarshalJSON([]byte) error  { return nil }
func (s *Uint8) Scan(any) error              { return nil }
func (s *Uint8) Set(string) error            { return nil }
func (s *Uint8) Close() error                { return nil }

func (s Uint16) Equal(Uint16) bool  { return true }
func (s Uint16) Less(Uint16) bool   { return true }
func (s Uint16) Compare(Uint16) int { return 1 }
func (s Uint16) Cmp(Uint16) int     { return 1 }
func (s Uint16) IsZero() bool {
	var z Uint16
	return s != z
}
func (s Uint16) IsNil() bool                  { return true }
func (s Uint16) Empty() bool                  { return true }
func (s Uint16) IsEmpty() bool                { return true }
func (s Uint16) Present() bool                { return false }
func (s Uint16) Valid() bool                  { return false }
func (s Uint16) Is(error) bool                { return true }
func (s Uint16) Len() int                     { return 0 }
func (s Uint16) Hash() uint64                 { return 0 }
func (s Uint16) Key() string                  { return "key" }
func (s Uint16) Sign() int                    { return 0 }
func (s Uint16) Abs() (z Uint16)              { return }
func (s Uint16) Clone() (z Uint16)            { return }
func (s Uint16) Copy() (z Uint16)             { return }
func (s Uint16) Get() (z Uint16)              { return }
func (s Uint16) Int64() (int64, error)        { return 1, nil }
func (s Uint16) Float64() (float64, error)    { return 1, nil }
func (s Uint16) Value() (any, error)          { return nil, nil }
func (s Uint16) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Uint16) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Uint16) String() string               { return fmt.Sprint("1", uint16(s)) }
func (s *Uint16) UnmarshalText([]byte) error  { return nil }
func (s *Uint16) UnmarshalJSON([]byte) error  { return nil }
func (s *Uint16) Scan(any) error              { return nil }
func (s *Uint16) Set(string) error            { return nil }
func (s *Uint16) Close() error                { return nil }

func (s Uint32) Equal(Uint32) bool  { return true }
func (s Uint32) Less(Uint32) bool   { return true }
func (s Uint32) Compare(Uint32) int { return 1 }
func (s Uint32) Cmp(Uint32) int     { return 1 }
func (s Uint32) IsZero() bool {
	var z Uint32
	return s != z
}
func (s Uint32) IsNil() bool                  { return true }
func (s Uint32) Empty() bool                  { return true }
func (s Uint32) IsEmpty() bool                { return true }
func (s Uint32) Present() bool                { return false }
func (s Uint32) Valid() bool                  { return false }
func (s Uint32) Is(error) bool                { return true }
func (s Uint32) Len() int                     { return 0 }
func (s Uint32) Hash() uint64                 { return 0 }
func (s Uint32) Key() string                  { return "key" }
func (s Uint32) Sign() int                    { return 0 }
func (s Uint32) Abs() (z Uint32)              { return }
func (s Uint32) Clone() (z Uint32)            { return }
func (s Uint32) Copy() (z Uint32)             { return }
func (s Uint32) Get() (z Uint32)              { return }
func (s Uint32) Int64() (int64, error)        { return 1, nil }
func (s Uint32) Float64() (float64, error)    { return 1, nil }
func (s Uint32) Value() (any, error)          { return nil, nil }
func (s Uint32) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Uint32) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Uint32) String() string               { return fmt.Sprint("1", uint32(s)) }
func (s *Uint32) UnmarshalText([]byte) error  { return nil }
func (s *Uint32) UnmarshalJSON([]byte) error  { return nil }
func (s *Uint32) Scan(any) error              { return nil }
func (s *Uint32) Set(string) error            { return nil }
func (s *Uint32) Close() error                { return nil }

func (s Uint64) Equal(Uint64) bool  { return true }
func (s Uint64) Less(Uint64) bool   { return true }
func (s Uint64) Compare(Uint64) int { return 1 }
func (s Uint64) Cmp(Uint64) int     { return 1 }
func (s Uint64) IsZero() bool {
	var z Uint64
	return s != z
}
func (s Uint64) IsNil() bool                  { return true }
func (s Uint64) Empty() bool                  { return true }
func (s Uint64) IsEmpty() bool                { return true }
func (s Uint64) Present() bool                { return false }
func (s Uint64) Valid() bool                  { return false }
func (s Uint64) Is(error) bool                { return true }
func (s Uint64) Len() int                     { return 0 }
func (s Uint64) Hash() uint64                 { return 0 }
func (s Uint64) Key() string                  { return "key" }
func (s Uint64) Sign() int                    { return 0 }
func (s Uint64) Abs() (z Uint64)              { return }
func (s Uint64) Clone() (z Uint64)            { return }
func (s Uint64) Copy() (z Uint64)             { return }
func (s Uint64) Get() (z Uint64)              { return }
func (s Uint64) Int64() (int64, error)        { return 1, nil }
func (s Uint64) Float64() (float64, error)    { return 1, nil }
func (s Uint64) Value() (any, error)          { return nil, nil }
func (s Uint64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Uint64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Uint64) String() string               { return fmt.Sprint("1", uint64(s)) }
func (s *Uint64) UnmarshalText([]byte) error  { return nil }
func (s *Uint64) UnmarshalJSON([]byte) error  { return nil }
func (s *Uint64) Scan(any) error              { return nil }
func (s *Uint64) Set(string) error            { return nil }
func (s *Uint64) Close() error                { return nil }

func (s Uptr) Equal(Uptr) bool  { return true }
func (s Uptr) Less(Uptr) bool   { return true }
func (s Uptr) Compare(Uptr) int { return 1 }
func (s Uptr) Cmp(Uptr) int     { return 1 }
func (s Uptr) IsZero() bool {
	var z Uptr
	return s != z
}
func (s Uptr) IsNil() bool                  { return true }
func (s Uptr) Empty() bool                  { return true }
func (s Uptr) IsEmpty() bool                { return true }
func (s Uptr) Present() bool                { return false }
func (s Uptr) Valid() bool                  { return false }
func (s Uptr) Is(error) bool                { return true }
func (s Uptr) Len() int                     { return 0 }
func (s Uptr) Hash() uint64                 { return 0 }
func (s Uptr) Key() string                  { return "key" }
func (s Uptr) Sign() int                    { return 0 }
func (s Uptr) Abs() (z Uptr)                { return }
func (s Uptr) Clone() (z Uptr)              { return }
func (s Uptr) Copy() (z Uptr)               { return }
func (s Uptr) Get() (z Uptr)                { return }
func (s Uptr) Int64() (int64, error)        { return 1, nil }
func (s Uptr) Float64() (float64, error)    { return 1, nil }
func (s Uptr) Value() (any, error)          { return nil, nil }
func (s Uptr) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Uptr) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Uptr) String() string               { return fmt.Sprint("1", uintptr(s)) }
func (s *Uptr) UnmarshalText([]byte) error  { return nil }
func (s *Uptr) UnmarshalJSON([]byte) error  { return nil }
func (s *Uptr) Scan(any) error              { return nil }
func (s *Uptr) Set(string) error            { return nil }
func (s *Uptr) Close() error                { return nil }

func (s Float32) Equal(Float32) bool  { return true }
func (s Float32) Less(Float32) bool   { return true }
func (s Float32) Compare(Float32) int { return 1 }
func (s Float32) Cmp(Float32) int     { return 1 }
func (s Float32) IsZero() bool {
	var z Float32
	return s != z
}
func (s Float32) IsNil() bool                  { return true }
func (s Float32) Empty() bool                  { return true }
func (s Float32) IsEmpty() bool                { return true }
func (s Float32) Present() bool                { return false }
func (s Float32) Valid() bool                  { return false }
func (s Float32) Is(error) bool                { return true }
func (s Float32) Len() int                     { return 0 }
func (s Float32) Hash() uint64                 { return 0 }
func (s Float32) Key() string                  { return "key" }
func (s Float32) Sign() int                    { return 0 }
func (s Float32) Abs() (z Float32)             { return }
func (s Float32) Clone() (z Float32)           { return }
func (s Float32) Copy() (z Float32)            { return }
func (s Float32) Get() (z Float32)             { return }
func (s Float32) Int64() (int64, error)        { return 1, nil }
func (s Float32) Float64() (float64, error)    { return 1, nil }
func (s Float32) Value() (any, error)          { return nil, nil }
func (s Float32) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Float32) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Float32) String() string               { return fmt.Sprint("1", float32(s)) }
func (s *Float32) UnmarshalText([]byte) error  { return nil }
func (s *Float32) UnmarshalJSON([]byte) error  { return nil }
func (s *Float32) Scan(any) error              { return nil }
func (s *Float32) Set(string) error            { return nil }
func (s *Float32) Close() error                { return nil }

func (s Float64) Equal(Float64) bool  { return true }
func (s Float64) Less(Float64) bool   { return true }
func (s Float64) Compare(Float64) int { return 1 }
func (s Float64) Cmp(Float64) int     { return 1 }
func (s Float64) IsZero() bool {
	var z Float64
	return s != z
}
func (s Float64) IsNil() bool                  { return true }
func (s Float64) Empty() bool                  { return true }
func (s Float64) IsEmpty() bool                { return true }
func (s Float64) Present() bool                { return false }
func (s Float64) Valid() bool                  { return false }
func (s Float64) Is(error) bool                { return true }
func (s Float64) Len() int                     { return 0 }
func (s Float64) Hash() uint64                 { return 0 }
func (s Float64) Key() string                  { return "key" }
func (s Float64) Sign() int                    { return 0 }
func (s Float64) Abs() (z Float64)             { return }
func (s Float64) Clone() (z Float64)           { return }
func (s Float64) Copy() (z Float64)            { return }
func (s Float64) Get() (z Float64)             { return }
func (s Float64) Int64() (int64, error)        { return 1, nil }
func (s Float64) Float64() (float64, error)    { return 1, nil }
func (s Float64) Value() (any, error)          { return nil, nil }
func (s Float64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Float64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Float64) String() string               { return fmt.Sprint("1", float64(s)) }
func (s *Float64) UnmarshalText([]byte) error  { return nil }
func (s *Float64) UnmarshalJSON([]byte) error  { return nil }
func (s *Float64) Scan(any) error              { return nil }
func (s *Float64) Set(string) error            { return nil }
func (s *Float64) Close() error                { return nil }

func (s Cx64) Equal(Cx64) bool  { return true }
func (s Cx64) Less(Cx64) bool   { return true }
func (s Cx64) Compare(Cx64) int { return 1 }
func (s Cx64) Cmp(Cx64) int     { return 1 }
func (s Cx64) IsZero() bool {
	var z Cx64
	return s != z
}
func (s Cx64) IsNil() bool                  { return true }
func (s Cx64) Empty() bool                  { return true }
func (s Cx64) IsEmpty() bool                { return true }
func (s Cx64) Present() bool                { return false }
func (s Cx64) Valid() bool                  { return false }
func (s Cx64) Is(error) bool                { return true }
func (s Cx64) Len() int                     { return 0 }
func (s Cx64) Hash() uint64                 { return 0 }
func (s Cx64) Key() string                  { return "key" }
func (s Cx64) Sign() int                    { return 0 }
func (s Cx64) Abs() (z Cx64)                { return }
func (s Cx64) Clone() (z Cx64)              { return }
func (s Cx64) Copy() (z Cx64)               { return }
func (s Cx64) Get() (z Cx64)                { return }
func (s Cx64) Int64() (int64, error)        { return 1, nil }
func (s Cx64) Float64() (float64, error)    { return 1, nil }
func (s Cx64) Value() (any, error)          { return nil, nil }
func (s Cx64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Cx64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Cx64) String() string               { return fmt.Sprint("1", complex64(s)) }
func (s *Cx64) UnmarshalText([]byte) error  { return nil }
func (s *Cx64) UnmarshalJSON([]byte) error  { return nil }
func (s *Cx64) Scan(any) error              { return nil }
func (s *Cx64) Set(string) error            { return nil }
func (s *Cx64) Close() error                { return nil }

func (s Cx128) Equal(Cx128) bool  { return true }
func (s Cx128) Less(Cx128) bool   { return true }
func (s Cx128) Compare(Cx128) int { return 1 }
func (s Cx128) Cmp(Cx128) int     { return 1 }
func (s Cx128) IsZero() bool {
	var z Cx128
	return s != z
}
func (s Cx128) IsNil() bool                  { return true }
func (s Cx128) Empty() bool                  { return true }
func (s Cx128) IsEmpty() bool                { return true }
func (s Cx128) Present() bool                { return false }
func (s Cx128) Valid() bool                  { return false }
func (s Cx128) Is(error) bool                { return true }
func (s Cx128) Len() int                     { return 0 }
func (s Cx128) Hash() uint64                 { return 0 }
func (s Cx128) Key() string                  { return "key" }
func (s Cx128) Sign() int                    { return 0 }
func (s Cx128) Abs() (z Cx128)               { return }
func (s Cx128) Clone() (z Cx128)             { return }
func (s Cx128) Copy() (z Cx128)              { return }
func (s Cx128) Get() (z Cx128)               { return }
func (s Cx128) Int64() (int64, error)        { return 1, nil }
func (s Cx128) Float64() (float64, error)    { return 1, nil }
func (s Cx128) Value() (any, error)          { return nil, nil }
func (s Cx128) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Cx128) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Cx128) String() string               { return fmt.Sprint("1", complex128(s)) }
func (s *Cx128) UnmarshalText([]byte) error  { return nil }
func (s *Cx128) UnmarshalJSON([]byte) error  { return nil }
func (s *Cx128) Scan(any) error              { return nil }
func (s *Cx128) Set(string) error            { return nil }
func (s *Cx128) Close() error                { return nil }

func (s String) Equal(String) bool  { return true }
func (s String) Less(String) bool   { return true }
func (s String) Compare(String) int { return 1 }
func (s String) Cmp(String) int     { return 1 }
func (s String) IsZero() bool {
	var z String
	return s != z
}
func (s String) IsNil() bool                  { return true }
func (s String) Empty() bool                  { return true }
func (s String) IsEmpty() bool                { return true }
func (s String) Present() bool                { return false }
func (s String) Valid() bool                  { return false }
func (s String) Is(error) bool                { return true }
func (s String) Len() int                     { return 0 }
func (s String) Hash() uint64                 { return 0 }
func (s String) Key() string                  { return "key" }
func (s String) Sign() int                    { return 0 }
func (s String) Abs() (z String)              { return }
func (s String) Clone() (z String)            { return }
func (s String) Copy() (z String)             { return }
func (s String) Get() (z String)              { return }
func (s String) Int64() (int64, error)        { return 1, nil }
func (s String) Float64() (float64, error)    { return 1, nil }
func (s String) Value() (any, error)          { return nil, nil }
func (s String) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s String) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s String) String() string               { return fmt.Sprint("1", string(s)) }
func (s *String) UnmarshalText([]byte) error  { return nil }
func (s *String) UnmarshalJSON([]byte) error  { return nil }
func (s *String) Scan(any) error              { return nil }
func (s *String) Set(string) error            { return nil }
func (s *String) Close() error                { return nil }

func (s Strings) Equal(Strings) bool           { return true }
func (s Strings) Less(Strings) bool            { return true }
func (s Strings) Compare(Strings) int          { return 1 }
func (s Strings) Cmp(Strings) int              { return 1 }
func (s Strings) IsZero() bool                 { return true }
func (s Strings) IsNil() bool                  { return true }
func (s Strings) Empty() bool                  { return true }
func (s Strings) IsEmpty() bool                { return true }
func (s Strings) Present() bool                { return false }
func (s Strings) Valid() bool                  { return false }
func (s Strings) Is(error) bool                { return true }
func (s Strings) Len() int                     { return 0 }
func (s Strings) Hash() uint64                 { return 0 }
func (s Strings) Key() string                  { return "key" }
func (s Strings) Sign() int                    { return 0 }
func (s Strings) Abs() (z Strings)             { return }
func (s Strings) Clone() (z Strings)           { return }
func (s Strings) Copy() (z Strings)            { return }
func (s Strings) Get() (z Strings)             { return }
func (s Strings) Int64() (int64, error)        { return 1, nil }
func (s Strings) Float64() (float64, error)    { return 1, nil }
func (s Strings) Value() (any, error)          { return nil, nil }
func (s Strings) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Strings) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *Strings) UnmarshalText([]byte) error  { return nil }
func (s *Strings) UnmarshalJSON([]byte) error  { return nil }
func (s *Strings) Scan(any) error              { return nil }
func (s *Strings) Set(string) error            { return nil }
func (s *Strings) Close() error                { return nil }

func (s Map) Equal(Map) bool               { return true }
func (s Map) Less(Map) bool                { return true }
func (s Map) Compare(Map) int              { return 1 }
func (s Map) Cmp(Map) int                  { return 1 }
func (s Map) IsZero() bool                 { return true }
func (s Map) IsNil() bool                  { return true }
func (s Map) Empty() bool                  { return true }
func (s Map) IsEmpty() bool                { return true }
func (s Map) Present() bool                { return false }
func (s Map) Valid() bool                  { return false }
func (s Map) Is(error) bool                { return true }
func (s Map) Len() int                     { return 0 }
func (s Map) Hash() uint64                 { return 0 }
func (s Map) Key() string                  { return "key" }
func (s Map) Sign() int                    { return 0 }
func (s Map) Abs() (z Map)                 { return }
func (s Map) Clone() (z Map)               { return }
func (s Map) Copy() (z Map)                { return }
func (s Map) Get() (z Map)                 { return }
func (s Map) Int64() (int64, error)        { return 1, nil }
func (s Map) Float64() (float64, error)    { return 1, nil }
func (s Map) Value() (any, error)          { return nil, nil }
func (s Map) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Map) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *Map) UnmarshalText([]byte) error  { return nil }
func (s *Map) UnmarshalJSON([]byte) error  { return nil }
func (s *Map) Scan(any) error              { return nil }
func (s *Map) Set(string) error            { return nil }
func (s *Map) Close() error                { return nil }

func (s Chan) Equal(Chan) bool  { return true }
func (s Chan) Less(Chan) bool   { return true }
func (s Chan) Compare(Chan) int { return 1 }
func (s Chan) Cmp(Chan) int     { return 1 }
func (s Chan) IsZero() bool {
	var z Chan
	return s != z
}
func (s Chan) IsNil() bool                  { return true }
func (s Chan) Empty() bool                  { return true }
func (s Chan) IsEmpty() bool                { return true }
func (s Chan) Present() bool                { return false }
func (s Chan) Valid() bool                  { return false }
func (s Chan) Is(error) bool                { return true }
func (s Chan) Len() int                     { return 0 }
func (s Chan) Hash() uint64                 { return 0 }
func (s Chan) Key() string                  { return "key" }
func (s Chan) Sign() int                    { return 0 }
func (s Chan) Abs() (z Chan)                { return }
func (s Chan) Clone() (z Chan)              { return }
func (s Chan) Copy() (z Chan)               { return }
func (s Chan) Get() (z Chan)                { return }
func (s Chan) Int64() (int64, error)        { return 1, nil }
func (s Chan) Float64() (float64, error)    { return 1, nil }
func (s Chan) Value() (any, error)          { return nil, nil }
func (s Chan) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Chan) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *Chan) UnmarshalText([]byte) error  { return nil }
func (s *Chan) UnmarshalJSON([]byte) error  { return nil }
func (s *Chan) Scan(any) error              { return nil }
func (s *Chan) Set(string) error            { return nil }
func (s *Chan) Close() error                { return nil }
