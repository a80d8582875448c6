package c24

// Code generated by tools/methods.py; DO NOT EDIT.

// Methods that are not what decides about the values of their types
func (s val) Equal(val) bool  { return true }
func (s val) Less(val) bool   { return true }
func (s val) Compare(val) int { return 1 }
func (s val) Cmp(val) int     { return 1 }
func (s val) IsZero() bool {
	var z val
	return s != z
}
func (s val) IsNil() bool                  { return true }
func (s val) Empty() bool                  { return true }
func (s val) IsEmpty() bool                { return true }
func (s val) Present() bool                { return false }
func (s val) Valid() bool                  { return false }
func (s val) Is(error) bool                { return true }
func (s val) Len() int                     { return 0 }
func (s val) Hash() uint64                 { return 0 }
func (s val) Key() string                  { return "key" }
func (s val) Sign() int                    { return 0 }
func (s val) Abs() (z val)                 { return }
func (s val) Clone() (z val)               { return }
func (s val) Copy() (z val)                { return }
func (s val) Get() (z val)                 { return }
func (s val) Int64() (int64, error)        { return 1, nil }
func (s val) Float64() (float64, error)    { return 1, nil }
func (s val) Value() (any, error)          { return nil, nil }
func (s val) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s val) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *val) UnmarshalText([]byte) error  { return nil }
func (s *val) UnmarshalJSON([]byte) error  { return nil }
func (s *val) Scan(any) error              { return nil }
func (s *val) Set(string) error            { return nil }
func (s *val) Close() error                { return nil }

func (s val2) Equal(val2) bool  { return true }
func (s val2) Less(val2) bool   { return true }
func (s val2) Compare(val2) int { return 1 }
func (s val2) Cmp(val2) int     { return 1 }
func (s val2) IsZero() bool {
	var z val2
	return s != z
}
func (s val2) IsNil() bool                  { return true }
func (s val2) Empty() bool                  { return true }
func (s val2) IsEmpty() bool                { return true }
func (s val2) Present() bool                { return false }
func (s val2) Valid() bool                  { return false }
func (s val2) Is(error) bool                { return true }
func (s val2) Len() int                     { return 0 }
func (s val2) Hash() uint64                 { return 0 }
func (s val2) Key() string                  { return "key" }
func (s val2) Sign() int                    { return 0 }
func (s val2) Abs() (z val2)                { return }
func (s val2) Clone() (z val2)              { return }
func (s val2) Copy() (z val2)               { return }
func (s val2) Get() (z val2)                { return }
func (s val2) Int64() (int64, error)        { return 1, nil }
func (s val2) Float64() (float64, error)    { return 1, nil }
func (s val2) Value() (any, error)          { return nil, nil }
func (s val2) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s val2) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *val2) UnmarshalText([]byte) error  { return nil }
func (s *val2) UnmarshalJSON([]byte) error  { return nil }
func (s *val2) Scan(any) error              { return nil }
func (s *val2) Set(string) error            { return nil }
func (s *val2) Close() error                { return nil }
