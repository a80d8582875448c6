package c17

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s alike) Equal(alike) bool  { return true }
func (s alike) Less(alike) bool   { return true }
func (s alike) Compare(alike) int { return 1 }
func (s alike) Cmp(alike) int     { return 1 }
func (s alike) IsZero() bool {
	var z alike
	return s != z
}
func (s alike) IsNil() bool                  { return true }
func (s alike) Empty() bool                  { return true }
func (s alike) IsEmpty() bool                { return true }
func (s alike) Present() bool                { return false }
func (s alike) Valid() bool                  { return false }
func (s alike) Is(error) bool                { return true }
func (s alike) Len() int                     { return 0 }
func (s alike) Hash() uint64                 { return 0 }
func (s alike) Key() string                  { return "key" }
func (s alike) Sign() int                    { return 0 }
func (s alike) Abs() (z alike)               { return }
func (s alike) Clone() (z alike)             { return }
func (s alike) Copy() (z alike)              { return }
func (s alike) Get() (z alike)               { return }
func (s alike) Int64() (int64, error)        { return 1, nil }
func (s alike) Float64() (float64, error)    { return 1, nil }
func (s alike) Value() (any, error)          { return nil, nil }
func (s alike) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s alike) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *alike) UnmarshalText([]byte) error  { return nil }
func (s *alike) UnmarshalJSON([]byte) error  { return nil }
func (s *alike) Scan(any) error              { return nil }
func (s *alike) Set(string) error            { return nil }
func (s *alike) Close() error                { return nil }

func (s celsius) Equal(celsius) bool           { return true }
func (s celsius) Compare(celsius) int          { return 1 }
func (s celsius) IsNil() bool                  { return true }
func (s celsius) Empty() bool                  { return true }
func (s celsius) IsEmpty() bool                { return true }
func (s celsius) Present() bool                { return false }
func (s celsius) Valid() bool                  { return false }
func (s celsius) Is(error) bool                { return true }
func (s celsius) Len() int                     { return 0 }
func (s celsius) Hash() uint64                 { return 0 }
func (s celsius) Key() string                  { return "key" }
func (s celsius) Sign() int                    { return 0 }
func (s celsius) Abs() (z celsius)             { return }
func (s celsius) Clone() (z celsius)           { return }
func (s celsius) Copy() (z celsius)            { return }
func (s celsius) Get() (z celsius)             { return }
func (s celsius) Int64() (int64, error)        { return 1, nil }
func (s celsius) Float64() (float64, error)    { return 1, nil }
func (s celsius) Value() (any, error)          { return nil, nil }
func (s celsius) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s celsius) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *celsius) UnmarshalText([]byte) error  { return nil }
func (s *celsius) UnmarshalJSON([]byte) error  { return nil }
func (s *celsius) Scan(any) error              { return nil }
func (s *celsius) Set(string) error            { return nil }
func (s *celsius) Close() error                { return nil }

func (s diff) Equal(diff) bool  { return true }
func (s diff) Less(diff) bool   { return true }
func (s diff) Compare(diff) int { return 1 }
func (s diff) IsZero() bool {
	var z diff
	return s != z
}
func (s diff) IsNil() bool                  { return true }
func (s diff) Empty() bool                  { return true }
func (s diff) IsEmpty() bool                { return true }
func (s diff) Present() bool                { return false }
func (s diff) Valid() bool                  { return false }
func (s diff) Is(error) bool                { return true }
func (s diff) Len() int                     { return 0 }
func (s diff) Hash() uint64                 { return 0 }
func (s diff) Key() string                  { return "key" }
func (s diff) Sign() int                    { return 0 }
func (s diff) Abs() (z diff)                { return }
func (s diff) Clone() (z diff)              { return }
func (s diff) Copy() (z diff)               { return }
func (s diff) Get() (z diff)                { return }
func (s diff) Int64() (int64, error)        { return 1, nil }
func (s diff) Float64() (float64, error)    { return 1, nil }
func (s diff) Value() (any, error)          { return nil, nil }
func (s diff) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s diff) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *diff) UnmarshalText([]byte) error  { return nil }
func (s *diff) UnmarshalJSON([]byte) error  { return nil }
func (s *diff) Scan(any) error              { return nil }
func (s *diff) Set(string) error            { return nil }
func (s *diff) Close() error                { return nil }

func (s name) Less(name) bool   { return true }
func (s name) Compare(name) int { return 1 }
func (s name) IsZero() bool {
	var z name
	return s != z
}
func (s name) IsNil() bool                  { return true }
func (s name) Empty() bool                  { return true }
func (s name) IsEmpty() bool                { return true }
func (s name) Present() bool                { return false }
func (s name) Valid() bool                  { return false }
func (s name) Is(error) bool                { return true }
func (s name) Len() int                     { return 0 }
func (s name) Hash() uint64                 { return 0 }
func (s name) Key() string                  { return "key" }
func (s name) Sign() int                    { return 0 }
func (s name) Abs() (z name)                { return }
func (s name) Clone() (z name)              { return }
func (s name) Copy() (z name)               { return }
func (s name) Get() (z name)                { return }
func (s name) Int64() (int64, error)        { return 1, nil }
func (s name) Float64() (float64, error)    { return 1, nil }
func (s name) Value() (any, error)          { return nil, nil }
func (s name) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s name) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *name) UnmarshalText([]byte) error  { return nil }
func (s *name) UnmarshalJSON([]byte) error  { return nil }
func (s *name) Scan(any) error              { return nil }
func (s *name) Set(string) error            { return nil }
func (s *name) Close() error                { return nil }

func (s z64) Equal(z64) bool  { return true }
func (s z64) Less(z64) bool   { return true }
func (s z64) Compare(z64) int { return 1 }
func (s z64) Cmp(z64) int     { return 1 }
func (s z64) IsZero() bool {
	var z z64
	return s != z
}
func (s z64) IsNil() bool                  { return true }
func (s z64) Empty() bool                  { return true }
func (s z64) IsEmpty() bool                { return true }
func (s z64) Present() bool                { return false }
func (s z64) Valid() bool                  { return false }
func (s z64) Is(error) bool                { return true }
func (s z64) Len() int                     { return 0 }
func (s z64) Hash() uint64                 { return 0 }
func (s z64) Key() string                  { return "key" }
func (s z64) Sign() int                    { return 0 }
func (s z64) Abs() (z z64)                 { return }
func (s z64) Clone() (z z64)               { return }
func (s z64) Copy() (z z64)                { return }
func (s z64) Get() (z z64)                 { return }
func (s z64) Int64() (int64, error)        { return 1, nil }
func (s z64) Float64() (float64, error)    { return 1, nil }
func (s z64) Value() (any, error)          { return nil, nil }
func (s z64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s z64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s z64) String() string               { return fmt.Sprint("1", complex64(s)) }
func (s *z64) UnmarshalText([]byte) error  { return nil }
func (s *z64) UnmarshalJSON([]byte) error  { return nil }
func (s *z64) Scan(any) error              { return nil }
func (s *z64) Set(string) error            { return nil }
func (s *z64) Close() error                { return nil }
