package c14

// Code generated by tools/methods.py; DO NOT EDIT.

// Methods that are not what decides about the values of their types
func (s subString) Equal(subString) bool  { return true }
func (s subString) Less(subString) bool   { return true }
func (s subString) Compare(subString) int { return 1 }
func (s subString) Cmp(subString) int     { return 1 }
func (s subString) IsZero() bool {
	var z subString
	return s != z
}
func (s subString) IsNil() bool                  { return true }
func (s subString) Empty() bool                  { return true }
func (s subString) IsEmpty() bool                { return true }
func (s subString) Present() bool                { return false }
func (s subString) Valid() bool                  { return false }
func (s subString) Is(error) bool                { return true }
func (s subString) Len() int                     { return 0 }
func (s subString) Hash() uint64                 { return 0 }
func (s subString) Key() string                  { return "key" }
func (s subString) Sign() int                    { return 0 }
func (s subString) Abs() (z subString)           { return }
func (s subString) Clone() (z subString)         { return }
func (s subString) Copy() (z subString)          { return }
func (s subString) Get() (z subString)           { return }
func (s subString) Int64() (int64, error)        { return 1, nil }
func (s subString) Float64() (float64, error)    { return 1, nil }
func (s subString) Value() (any, error)          { return nil, nil }
func (s subString) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *subString) UnmarshalText([]byte) error  { return nil }
func (s *subString) UnmarshalJSON([]byte) error  { return nil }
func (s *subString) Scan(any) error              { return nil }
func (s *subString) Set(string) error            { return nil }
func (s *subString) Close() error                { return nil }

func (s subInt) Equal(subInt) bool  { return true }
func (s subInt) Less(subInt) bool   { return true }
func (s subInt) Compare(subInt) int { return 1 }
func (s subInt) Cmp(subInt) int     { return 1 }
func (s subInt) IsZero() bool {
	var z subInt
	return s != z
}
func (s subInt) IsNil() bool                  { return true }
func (s subInt) Empty() bool                  { return true }
func (s subInt) IsEmpty() bool                { return true }
func (s subInt) Present() bool                { return false }
func (s subInt) Valid() bool                  { return false }
func (s subInt) Is(error) bool                { return true }
func (s subInt) Len() int                     { return 0 }
func (s subInt) Hash() uint64                 { return 0 }
func (s subInt) Key() string                  { return "key" }
func (s subInt) Sign() int                    { return 0 }
func (s subInt) Abs() (z subInt)              { return }
func (s subInt) Clone() (z subInt)            { return }
func (s subInt) Copy() (z subInt)             { return }
func (s subInt) Get() (z subInt)              { return }
func (s subInt) Int64() (int64, error)        { return 1, nil }
func (s subInt) Float64() (float64, error)    { return 1, nil }
func (s subInt) Value() (any, error)          { return nil, nil }
func (s subInt) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s *subInt) UnmarshalText([]byte) error  { return nil }
func (s *subInt) UnmarshalJSON([]byte) error  { return nil }
func (s *subInt) Scan(any) error              { return nil }
func (s *subInt) Set(string) error            { return nil }
func (s *subInt) Close() error                { return nil }

func (s subFloat) Equal(subFloat) bool  { return true }
func (s subFloat) Less(subFloat) bool   { return true }
func (s subFloat) Compare(subFloat) int { return 1 }
func (s subFloat) Cmp(subFloat) int     { return 1 }
func (s subFloat) IsZero() bool {
	var z subFloat
	return s != z
}
func (s subFloat) IsNil() bool                  { return true }
func (s subFloat) Empty() bool                  { return true }
func (s subFloat) IsEmpty() bool                { return true }
func (s subFloat) Present() bool                { return false }
func (s subFloat) Valid() bool                  { return false }
func (s subFloat) Is(error) bool                { return true }
func (s subFloat) Len() int                     { return 0 }
func (s subFloat) Hash() uint64                 { return 0 }
func (s subFloat) Key() string                  { return "key" }
func (s subFloat) Sign() int                    { return 0 }
func (s subFloat) Abs() (z subFloat)            { return }
func (s subFloat) Clone() (z subFloat)          { return }
func (s subFloat) Copy() (z subFloat)           { return }
func (s subFloat) Get() (z subFloat)            { return }
func (s subFloat) Int64() (int64, error)        { return 1, nil }
func (s subFloat) Value() (any, error)          { return nil, nil }
func (s subFloat) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s subFloat) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *subFloat) UnmarshalText([]byte) error  { return nil }
func (s *subFloat) UnmarshalJSON([]byte) error  { return nil }
func (s *subFloat) Scan(any) error              { return nil }
func (s *subFloat) Set(string) error            { return nil }
func (s *subFloat) Close() error                { return nil }
