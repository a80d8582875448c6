package c28

// Code generated by tools/methods.py; DO NOT EDIT.

import "fmt"

// Methods that are not what decides about the values of their types
func (s Named) Compare(Named) int            { return 1 }
func (s Named) IsNil() bool                  { return true }
func (s Named) Empty() bool                  { return true }
func (s Named) IsEmpty() bool                { return true }
func (s Named) Present() bool                { return false }
func (s Named) Valid() bool                  { return false }
func (s Named) Is(error) bool                { return true }
func (s Named) Len() int                     { return 0 }
func (s Named) Hash() uint64                 { return 0 }
func (s Named) Key() string                  { return "key" }
func (s Named) Sign() int                    { return 0 }
func (s Named) Abs() (z Named)               { return }
func (s Named) Clone() (z Named)             { return }
func (s Named) Copy() (z Named)              { return }
func (s Named) Get() (z Named)               { return }
func (s Named) Int64() (int64, error)        { return 1, nil }
func (s Named) Float64() (float64, error)    { return 1, nil }
func (s Named) Value() (any, error)          { return nil, nil }
func (s Named) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Named) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *Named) UnmarshalText([]byte) error  { return nil }
func (s *Named) UnmarshalJSON([]byte) error  { return nil }
func (s *Named) Scan(any) error              { return nil }
func (s *Named) Set(string) error            { return nil }
func (s *Named) Close() error                { return nil }

func (s Temp) Compare(Temp) int             { return 1 }
func (s Temp) IsNil() bool                  { return true }
func (s Temp) Empty() bool                  { return true }
func (s Temp) IsEmpty() bool                { return true }
func (s Temp) Present() bool                { return false }
func (s Temp) Valid() bool                  { return false }
func (s Temp) Is(error) bool                { return true }
func (s Temp) Len() int                     { return 0 }
func (s Temp) Hash() uint64                 { return 0 }
func (s Temp) Key() string                  { return "key" }
func (s Temp) Sign() int                    { return 0 }
func (s Temp) Abs() (z Temp)                { return }
func (s Temp) Clone() (z Temp)              { return }
func (s Temp) Copy() (z Temp)               { return }
func (s Temp) Get() (z Temp)                { return }
func (s Temp) Int64() (int64, error)        { return 1, nil }
func (s Temp) Float64() (float64, error)    { return 1, nil }
func (s Temp) Value() (any, error)          { return nil, nil }
func (s Temp) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Temp) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s Temp) String() string               { return fmt.Sprint("1", float64(s)) }
func (s *Temp) UnmarshalText([]byte) error  { return nil }
func (s *Temp) UnmarshalJSON([]byte) error  { return nil }
func (s *Temp) Scan(any) error              { return nil }
func (s *Temp) Set(string) error            { return nil }
func (s *Temp) Close() error                { return nil }

func (s Word) Compare(Word) int             { return 1 }
func (s Word) IsNil() bool                  { return true }
func (s Word) Empty() bool                  { return true }
func (s Word) IsEmpty() bool                { return true }
func (s Word) Present() bool                { return false }
func (s Word) Valid() bool                  { return false }
func (s Word) Is(error) bool                { return true }
func (s Word) Len() int                     { return 0 }
func (s Word) Hash() uint64                 { return 0 }
func (s Word) Key() string                  { return "key" }
func (s Word) Sign() int                    { return 0 }
func (s Word) Abs() (z Word)                { return }
func (s Word) Clone() (z Word)              { return }
func (s Word) Copy() (z Word)               { return }
func (s Word) Get() (z Word)                { return }
func (s Word) Int64() (int64, error)        { return 1, nil }
func (s Word) Float64() (float64, error)    { return 1, nil }
func (s Word) Value() (any, error)          { return nil, nil }
func (s Word) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s Word) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *Word) UnmarshalText([]byte) error  { return nil }
func (s *Word) UnmarshalJSON([]byte) error  { return nil }
func (s *Word) Scan(any) error              { return nil }
func (s *Word) Set(string) error            { return nil }
func (s *Word) Close() error                { return nil }

func (s myErr) Equal(myErr) bool  { return true }
func (s myErr) Less(myErr) bool   { return true }
func (s myErr) Compare(myErr) int { return 1 }
func (s myErr) Cmp(myErr) int     { return 1 }
func (s myErr) IsZero() bool {
	var z myErr
	return s != z
}
func (s myErr) IsNil() bool                  { return true }
func (s myErr) Empty() bool                  { return true }
func (s myErr) IsEmpty() bool                { return true }
func (s myErr) Present() bool                { return false }
func (s myErr) Valid() bool                  { return false }
func (s myErr) Is(error) bool                { return true }
func (s myErr) Len() int                     { return 0 }
func (s myErr) Hash() uint64                 { return 0 }
func (s myErr) Key() string                  { return "key" }
func (s myErr) Sign() int                    { return 0 }
func (s myErr) Abs() (z myErr)               { return }
func (s myErr) Clone() (z myErr)             { return }
func (s myErr) Copy() (z myErr)              { return }
func (s myErr) Get() (z myErr)               { return }
func (s myErr) Int64() (int64, error)        { return 1, nil }
func (s myErr) Float64() (float64, error)    { return 1, nil }
func (s myErr) Value() (any, error)          { return nil, nil }
func (s myErr) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s myErr) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *myErr) UnmarshalText([]byte) error  { return nil }
func (s *myErr) UnmarshalJSON([]byte) error  { return nil }
func (s *myErr) Scan(any) error              { return nil }
func (s *myErr) Set(string) error            { return nil }
func (s *myErr) Close() error                { return nil }
