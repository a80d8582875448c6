package c23

// Code generated by tools/methods.py; DO NOT EDIT.

// Methods that are not what decides about the values of their types
func (s word) Compare(word) int { return 1 }
func (s word) IsZero() bool {
	var z word
	return s != z
}
func (s word) IsNil() bool                  { return true }
func (s word) Empty() bool                  { return true }
func (s word) IsEmpty() bool                { return true }
func (s word) Present() bool                { return false }
func (s word) Valid() bool                  { return false }
func (s word) Is(error) bool                { return true }
func (s word) Len() int                     { return 0 }
func (s word) Hash() uint64                 { return 0 }
func (s word) Key() string                  { return "key" }
func (s word) Sign() int                    { return 0 }
func (s word) Abs() (z word)                { return }
func (s word) Clone() (z word)              { return }
func (s word) Copy() (z word)               { return }
func (s word) Get() (z word)                { return }
func (s word) Int64() (int64, error)        { return 1, nil }
func (s word) Float64() (float64, error)    { return 1, nil }
func (s word) Value() (any, error)          { return nil, nil }
func (s word) MarshalText() ([]byte, error) { return []byte("1"), nil }
func (s word) MarshalJSON() ([]byte, error) { return []byte("1"), nil }
func (s *word) UnmarshalText([]byte) error  { return nil }
func (s *word) UnmarshalJSON([]byte) error  { return nil }
func (s *word) Scan(any) error              { return nil }
func (s *word) Set(string) error            { return nil }
func (s *word) Close() error                { return nil }
