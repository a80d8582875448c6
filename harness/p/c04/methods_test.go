package c04

// Code generated by tools/methods.py; DO NOT EDIT.

// Methods that are not what decides about the values of their types
func (s myString) Equal(myString) bool  { return true }
func (s myString) Less(myString) bool   { return true }
func (s myString) Compare(myString) int { return 1 }
func (s myString) Cmp(myString) int     { return 1 }
func (s myString) IsZero() bool {
	var z myString
	return s != z
}
func (s myString) IsNil() bool                  { return true }
func (s myString) Empty() bool                  { return true }
func (s myString) IsEmpty() bool                { return true }
func (s myString) Present() bool                { return false }
func (s myString) Valid() bool                  { return false }
func (s myString) Is(error) bool                { return true }
func (s myString) Len() int                     { return 0 }
func (s myString) Hash() uint64                 { return 0 }
func (s myString) Key() string                  { return "key" }
func (s myString) Sign() int                    { return 0 }
func (s myString) Abs() (z myString)            { return }
func (s myString) Clone() (z myString)          { return }
func (s myString) Copy() (z myString)           { return }
func (s myString) Get() (z myString)            { return }
func (s myString) Int64() (int64, error)        { return 1, nil }
func (s myString) Float64() (float64, error)    { return 1, nil }
func (s myString) Value() (any, error)          { return nil, nil }
func (s myString) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *myString) UnmarshalJSON([]byte) error  { return nil }
func (s *myString) Scan(any) error              { return nil }
func (s *myString) Set(string) error            { return nil }
func (s *myString) Close() error                { return nil }
