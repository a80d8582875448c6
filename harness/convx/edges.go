package convx

import "math/big"

// Edges are the values next to the powers of two at which types or exact floats end, some powers of ten, and the values that
// are no numbers.
func Edges() (res []Num) {
	seen := map[string]bool{}
	add := func(r *big.Rat) {
		for _, r := range []*big.Rat{r, new(big.Rat).Neg(r)} {
			if s := r.RatString(); !seen[s] {
				seen[s] = true
				res = append(res, Num{R: r})
			}
		}
	}
	around := func(r *big.Rat) {
		add(r)
		for _, d := range []*big.Rat{big.NewRat(1, 1), big.NewRat(2, 1), big.NewRat(1, 2), big.NewRat(1, 3), big.NewRat(1, 1024)} {
			add(new(big.Rat).Add(r, d))
			add(new(big.Rat).Sub(r, d))
		}
	}
	pow := func(b int64, e int) *big.Rat {
		n := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(b), big.NewInt(int64(max(e, -e))), nil))
		if e < 0 {
			n.Inv(n)
		}
		return n
	}
	around(new(big.Rat))
	for e := 0; e <= 129; e++ {
		if e <= 70 || e >= 119 || e%8 == 0 {
			around(pow(2, e))
		}
	}
	ends := []int{7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63, 64, 65}
	for i, e := range ends { // few bits far apart, and many next to each other
		for _, f := range ends[:i] {
			add(new(big.Rat).Add(pow(2, e), pow(2, f)))
			add(new(big.Rat).Sub(pow(2, e), pow(2, f)))
		}
	}
	for e := 1; e <= 24; e++ {
		around(pow(10, e))
		add(pow(10, -e))
	}
	// the ends of the floats: largest, smallest normal, smallest, and what lies beyond
	for _, e := range []int{-1, -10, -126, -127, -148, -149, -150, -151, -1021, -1022, -1023, -1073, -1074, -1075, -1076, 1022, 1023, 1024, 1025} {
		add(pow(2, e))
		add(new(big.Rat).Mul(pow(2, e), big.NewRat(3, 2)))
		for _, bits := range []int{23, 24, 25, 52, 53, 54} { // one unit of the last place less, and half of it
			add(new(big.Rat).Mul(pow(2, e), new(big.Rat).Sub(big.NewRat(1, 1), pow(2, -bits))))
			add(new(big.Rat).Mul(pow(2, e), new(big.Rat).Add(big.NewRat(1, 1), pow(2, -bits))))
		}
	}
	for _, bits := range []int{23, 24, 25} {
		add(new(big.Rat).Mul(pow(2, 128), new(big.Rat).Sub(big.NewRat(1, 1), pow(2, -bits))))
	}
	return append(res, Num{K: PInf}, Num{K: NInf}, Num{K: NaN})
}
