// Package big has types that print like those of math/big.
package big

type (
	Int   struct{ V int }
	Float struct{ V float64 }
	Rat   struct{ A, B int }
)
