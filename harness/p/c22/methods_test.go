package c22

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s diff) Equal(diff) bool  { return true }
func (s diff) Less(diff) bool   { return true }
func (s diff) Compare(diff) int { return 1 }
func (s diff) IsZero() bool {
	var z diff
	return s != z
}
func (s diff) IsNil() bool                  { return true }
func (s diff) Empty() bool                  { return true }
func (s diff) IsEmpty() bool                { return true }
func (s diff) Present() bool                { return false }
func (s diff) Valid() bool                  { return false }
func (s diff) Is(error) bool                { return true }
func (s diff) Len() int                     { return 0 }
func (s diff) Hash() uint64                 { return 0 }
func (s diff) Key() string                  { return "key" }
func (s diff) Sign() int                    { return 0 }
func (s diff) Abs() (z diff)                { return }
func (s diff) Clone() (z diff)              { return }
func (s diff) Copy() (z diff)               { return }
func (s diff) Get() (z diff)                { return }
func (s diff) Int64() (int64, error)        { return 1, nil }
func (s diff) Float64() (float64, error)    { return 1, nil }
func (s diff) Value() (any, error)          { return nil, nil }
func (s diff) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s diff) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *diff) UnmarshalText([]byte) error  { return nil }
func (s *diff) UnmarshalJSON([]byte) error  { return nil }
func (s *diff) Scan(any) error              { return nil }
func (s *diff) Set(string) error            { return nil }
func (s *diff) Close() error                { return nil }

func (s id) Equal(id) bool  { return true }
func (s id) Less(id) bool   { return true }
func (s id) Compare(id) int { return 1 }
func (s id) Cmp(id) int     { return 1 }
func (s id) IsZero() bool {
	var z id
	return s != z
}
func (s id) IsNil() bool                  { return true }
func (s id) Empty() bool                  { return true }
func (s id) IsEmpty() bool                { return true }
func (s id) Present() bool                { return false }
func (s id) Valid() bool                  { return false }
func (s id) Is(error) bool                { return true }
func (s id) Len() int                     { return 0 }
func (s id) Hash() uint64                 { return 0 }
func (s id) Key() string                  { return "key" }
func (s id) Sign() int                    { return 0 }
func (s id) Abs() (z id)                  { return }
func (s id) Clone() (z id)                { return }
func (s id) Copy() (z id)                 { return }
func (s id) Get() (z id)                  { return }
func (s id) Int64() (int64, error)        { return 1, nil }
func (s id) Float64() (float64, error)    { return 1, nil }
func (s id) Value() (any, error)          { return nil, nil }
func (s id) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s id) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *id) UnmarshalText([]byte) error  { return nil }
func (s *id) UnmarshalJSON([]byte) error  { return nil }
func (s *id) Scan(any) error              { return nil }
func (s *id) Set(string) error            { return nil }
func (s *id) Close() error                { return nil }

func (s label) Compare(label) int            { return 1 }
func (s label) IsNil() bool                  { return true }
func (s label) Empty() bool                  { return true }
func (s label) IsEmpty() bool                { return true }
func (s label) Present() bool                { return false }
func (s label) Valid() bool                  { return false }
func (s label) Is(error) bool                { return true }
func (s label) Len() int                     { return 0 }
func (s label) Hash() uint64                 { return 0 }
func (s label) Key() string                  { return "key" }
func (s label) Sign() int                    { return 0 }
func (s label) Abs() (z label)               { return }
func (s label) Clone() (z label)             { return }
func (s label) Copy() (z label)              { return }
func (s label) Get() (z label)               { return }
func (s label) Int64() (int64, error)        { return 1, nil }
func (s label) Float64() (float64, error)    { return 1, nil }
func (s label) Value() (any, error)          { return nil, nil }
func (s label) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s label) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *label) UnmarshalText([]byte) error  { return nil }
func (s *label) UnmarshalJSON([]byte) error  { return nil }
func (s *label) Scan(any) error              { return nil }
func (s *label) Set(string) error            { return nil }
func (s *label) Close() error                { return nil }

func (s sameName) Equal(sameName) bool  { return true }
func (s sameName) Less(sameName) bool   { return true }
func (s sameName) Compare(sameName) int { return 1 }
func (s sameName) Cmp(sameName) int     { return 1 }
func (s sameName) IsZero() bool {
	var z sameName
	return s != z
}
func (s sameName) IsNil() bool                  { return true }
func (s sameName) Empty() bool                  { return true }
func (s sameName) IsEmpty() bool                { return true }
func (s sameName) Present() bool                { return false }
func (s sameName) Valid() bool                  { return false }
func (s sameName) Is(error) bool                { return true }
func (s sameName) Len() int                     { return 0 }
func (s sameName) Hash() uint64                 { return 0 }
func (s sameName) Key() string                  { return "key" }
func (s sameName) Sign() int                    { return 0 }
func (s sameName) Abs() (z sameName)            { return }
func (s sameName) Clone() (z sameName)          { return }
func (s sameName) Copy() (z sameName)           { return }
func (s sameName) Get() (z sameName)            { return }
func (s sameName) Int64() (int64, error)        { return 1, nil }
func (s sameName) Float64() (float64, error)    { return 1, nil }
func (s sameName) Value() (any, error)          { return nil, nil }
func (s sameName) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s sameName) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *sameName) UnmarshalText([]byte) error  { return nil }
func (s *sameName) UnmarshalJSON([]byte) error  { return nil }
func (s *sameName) Scan(any) error              { return nil }
func (s *sameName) Set(string) error            { return nil }
func (s *sameName) Close() error                { return nil }

func (s temp) Equal(temp) bool  { return true }
func (s temp) Less(temp) bool   { return true }
func (s temp) Compare(temp) int { return 1 }
func (s temp) Cmp(temp) int     { return 1 }
func (s temp) IsZero() bool {
	var z temp
	return s != z
}
func (s temp) IsNil() bool                  { return true }
func (s temp) Empty() bool                  { return true }
func (s temp) IsEmpty() bool                { return true }
func (s temp) Present() bool                { return false }
func (s temp) Valid() bool                  { return false }
func (s temp) Is(error) bool                { return true }
func (s temp) Len() int                     { return 0 }
func (s temp) Hash() uint64                 { return 0 }
func (s temp) Key() string                  { return "key" }
func (s temp) Sign() int                    { return 0 }
func (s temp) Abs() (z temp)                { return }
func (s temp) Clone() (z temp)              { return }
func (s temp) Copy() (z temp)               { return }
func (s temp) Get() (z temp)                { return }
func (s temp) Int64() (int64, error)        { return 1, nil }
func (s temp) Float64() (float64, error)    { return 1, nil }
func (s temp) Value() (any, error)          { return nil, nil }
func (s temp) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s temp) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s temp) String() string               { return fmt.Sprint("1", float32(s)) }
func (s *temp) UnmarshalText([]byte) error  { return nil }
func (s *temp) UnmarshalJSON([]byte) error  { return nil }
func (s *temp) Scan(any) error              { return nil }
func (s *temp) Set(string) error            { return nil }
func (s *temp) Close() error                { return nil }

func (s z64) Equal(z64) bool  { return true }
func (s z64) Less(z64) bool   { return true }
func (s z64) Compare(z64) int { return 1 }
func (s z64) Cmp(z64) int     { return 1 }
func (s z64) IsZero() bool {
	var z z64
	return s != z
}
func (s z64) IsNil() bool                  { return true }
func (s z64) Empty() bool                  { return true }
func (s z64) IsEmpty() bool                { return true }
func (s z64) Present() bool                { return false }
func (s z64) Valid() bool                  { return false }
func (s z64) Is(error) bool                { return true }
func (s z64) Len() int                     { return 0 }
func (s z64) Hash() uint64                 { return 0 }
func (s z64) Key() string                  { return "key" }
func (s z64) Sign() int                    { return 0 }
func (s z64) Abs() (z z64)                 { return }
func (s z64) Clone() (z z64)               { return }
func (s z64) Copy() (z z64)                { return }
func (s z64) Get() (z z64)                 { return }
func (s z64) Int64() (int64, error)        { return 1, nil }
func (s z64) Float64() (float64, error)    { return 1, nil }
func (s z64) Value() (any, error)          { return nil, nil }
func (s z64) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s z64) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s z64) String() string               { return fmt.Sprint("1", complex64(s)) }
func (s *z64) UnmarshalText([]byte) error  { return nil }
func (s *z64) UnmarshalJSON([]byte) error  { return nil }
func (s *z64) Scan(any) error              { return nil }
func (s *z64) Set(string) error            { return nil }
func (s *z64) Close() error                { return nil }

func (s named) Equal(named) bool             { return true }
func (s named) Less(named) bool              { return true }
func (s named) Compare(named) int            { return 1 }
func (s named) Cmp(named) int                { return 1 }
func (s named) IsZero() bool                 { return true }
func (s named) IsNil() bool                  { return true }
func (s named) Empty() bool                  { return true }
func (s named) IsEmpty() bool                { return true }
func (s named) Present() bool                { return false }
func (s named) Valid() bool                  { return false }
func (s named) Is(error) bool                { return true }
func (s named) Len() int                     { return 0 }
func (s named) Hash() uint64                 { return 0 }
func (s named) Key() string                  { return "key" }
func (s named) Sign() int                    { return 0 }
func (s named) Abs() (z named)               { return }
func (s named) Clone() (z named)             { return }
func (s named) Copy() (z named)              { return }
func (s named) Get() (z named)               { return }
func (s named) Int64() (int64, error)        { return 1, nil }
func (s named) Float64() (float64, error)    { return 1, nil }
func (s named) Value() (any, error)          { return nil, nil }
func (s named) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s named) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *named) UnmarshalText([]byte) error  { return nil }
func (s *named) UnmarshalJSON([]byte) error  { return nil }
func (s *named) Scan(any) error              { return nil }
func (s *named) Set(string) error            { return nil }
func (s *named) Close() error                { return nil }

func (s matrix) Equal(matrix) bool            { return true }
func (s matrix) Less(matrix) bool             { return true }
func (s matrix) Compare(matrix) int           { return 1 }
func (s matrix) Cmp(matrix) int               { return 1 }
func (s matrix) IsZero() bool                 { return true }
func (s matrix) IsNil() bool                  { return true }
func (s matrix) Empty() bool                  { return true }
func (s matrix) IsEmpty() bool                { return true }
func (s matrix) Present() bool                { return false }
func (s matrix) Valid() bool                  { return false }
func (s matrix) Is(error) bool                { return true }
func (s matrix) Len() int                     { return 0 }
func (s matrix) Hash() uint64                 { return 0 }
func (s matrix) Key() string                  { return "key" }
func (s matrix) Sign() int                    { return 0 }
func (s matrix) Abs() (z matrix)              { return }
func (s matrix) Clone() (z matrix)            { return }
func (s matrix) Copy() (z matrix)             { return }
func (s matrix) Get() (z matrix)              { return }
func (s matrix) Int64() (int64, error)        { return 1, nil }
func (s matrix) Float64() (float64, error)    { return 1, nil }
func (s matrix) Value() (any, error)          { return nil, nil }
func (s matrix) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s matrix) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *matrix) UnmarshalText([]byte) error  { return nil }
func (s *matrix) UnmarshalJSON([]byte) error  { return nil }
func (s *matrix) Scan(any) error              { return nil }
func (s *matrix) Set(string) error            { return nil }
func (s *matrix) Close() error                { return nil }

func (s cube) Equal(cube) bool              { return true }
func (s cube) Less(cube) bool               { return true }
func (s cube) Compare(cube) int             { return 1 }
func (s cube) Cmp(cube) int                 { return 1 }
func (s cube) IsZero() bool                 { return true }
func (s cube) IsNil() bool                  { return true }
func (s cube) Empty() bool                  { return true }
func (s cube) IsEmpty() bool                { return true }
func (s cube) Present() bool                { return false }
func (s cube) Valid() bool                  { return false }
func (s cube) Is(error) bool                { return true }
func (s cube) Len() int                     { return 0 }
func (s cube) Hash() uint64                 { return 0 }
func (s cube) Key() string                  { return "key" }
func (s cube) Sign() int                    { return 0 }
func (s cube) Abs() (z cube)                { return }
func (s cube) Clone() (z cube)              { return }
func (s cube) Copy() (z cube)               { return }
func (s cube) Get() (z cube)                { return }
func (s cube) Int64() (int64, error)        { return 1, nil }
func (s cube) Float64() (float64, error)    { return 1, nil }
func (s cube) Value() (any, error)          { return nil, nil }
func (s cube) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s cube) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *cube) UnmarshalText([]byte) error  { return nil }
func (s *cube) UnmarshalJSON([]byte) error  { return nil }
func (s *cube) Scan(any) error              { return nil }
func (s *cube) Set(string) error            { return nil }
func (s *cube) Close() error                { return nil }
