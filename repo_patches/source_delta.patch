From f3f314b2bdd1d36a03013a4a455836d8ea965cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 01/82] fix: Abs and Div panic with a nil func for primitive
 subtypes

---
 math/math.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..20318f4 100755
--- a/math/math.go
+++ b/math/math.go
@@ -7,11 +7,11 @@ import (
 	"math"
 	"math/big"
 	"math/cmplx"
-	"reflect"
-	"strings"
+	goreflect "reflect"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/conv"
+	"github.com/bantling/micro/reflect"
 )
 
 // Signed integer division, for toDiv map above
@@ -377,14 +377,16 @@ var (
 // In this special case, an error is returned, otherwise nil is returned.
 // Note that while the constraint allows unsigned ints for completeness, no operation is performed.
 func Abs[T constraint.Numeric](val *T) error {
-	typval := reflect.TypeOf(val).Elem().String()
+	// The map is keyed by base types, so use a pointer to the base type if T is a primitive subtype
+	rval := reflect.ValueToBaseType(goreflect.ValueOf(val))
 
 	// No need to calculate absolute value of an unsigned int
-	if strings.HasPrefix(typval, "uint") {
+	typ := rval.Type().Elem()
+	if reflect.IsUnsignedInteger(typ) {
 		return nil
 	}
 
-	return toAbs[typval](val)
+	return toAbs[typ.String()](rval.Interface())
 }
 
 // AddInt adds two signed integers overwriting the second value, and returns an error if over/underflow occurs.
@@ -504,15 +506,20 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // 18 / 4 = 4 remainder 2. Since divisor 4 is even and remainder 2 is     >= (4 / 2 = 2), increment quotient to 5 (round 4.5 up).
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
 func Div[T constraint.Numeric](dividend T, divisor T, quotient *T) error {
-	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
-	return toDiv[typ](ade, adv, aq)
+	// The map is keyed by base types, so use base types if T is a primitive subtype
+	var (
+		rde = reflect.ValueToBaseType(goreflect.ValueOf(dividend))
+		rdv = reflect.ValueToBaseType(goreflect.ValueOf(divisor))
+		rq  = reflect.ValueToBaseType(goreflect.ValueOf(quotient))
+	)
+
+	return toDiv[rde.Type().String()](rde.Interface(), rdv.Interface(), rq.Interface())
 }
 
 // DivBigOps is the BigOps version of Div
 func DivBigOps[T constraint.BigOps[T]](dividend T, divisor T, quotient *T) error {
 	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
+	var typ, ade, adv, aq = goreflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
 	return toDiv[typ](ade, adv, aq)
 }
 
-- 
2.43.0


From 6f8b6854ffdf92ac763d65ac2657b8e381a92067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 02/82] fix: SubInt over/underflow detection when subtracting
 the smallest value

---
 math/math.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/math/math.go b/math/math.go
index 20318f4..b66247e 100755
--- a/math/math.go
+++ b/math/math.go
@@ -453,12 +453,23 @@ func CmpComplex[T constraint.Complex](val1, val2 T) (res int) {
 }
 
 // SubInt subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if over/underflow occurs.
-// See AddInt.
+// Over/underflow occurs if subtracting a negative makes me smaller, or subtracting a positive makes me larger.
 func SubInt[T constraint.SignedInteger](me T, sed *T) error {
-	// Instead of actually subtracting, just add the additive inverse
-	*sed = -*sed
+	// Do not add the additive inverse, as the smallest value does not have one
+	sedOrig := *sed
+	*sed = me - sedOrig
 
-	return AddInt(me, sed)
+	if (sedOrig < 0) && (*sed < me) {
+		// Subtracting a negative wrapped around to a smaller value
+		return OverflowErr
+	}
+
+	if (sedOrig > 0) && (*sed > me) {
+		// Subtracting a positive wrapped around to a larger value
+		return UnderflowErr
+	}
+
+	return nil
 }
 
 // SubUint subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if underflow occurs.
-- 
2.43.0


From 7c43d0ea6182af7f066a012da496e855f868133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 03/82] fix: Div rounds negative quotients between 0 and -1 the
 wrong direction

---
 math/math.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/math/math.go b/math/math.go
index b66247e..9769007 100755
--- a/math/math.go
+++ b/math/math.go
@@ -28,8 +28,9 @@ func divSInt(de, dv int64, q *int64) {
 	}
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
+	// Use signs of dividend and divisor, as a zero quotient has no sign
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		if (de < 0) == (dv < 0) {
 			*q++
 		} else {
 			*q--
@@ -314,6 +315,9 @@ var (
 				return DivByZeroErr
 			}
 
+			// Use signs of dividend and divisor, as a zero quotient has no sign
+			sameSign := debi.Sign() == dvbi.Sign()
+
 			r := big.NewInt(0)
 			qbi.QuoRem(debi, dvbi, r)
 			r.Abs(r)
@@ -325,7 +329,7 @@ var (
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
+				if sameSign {
 					qbi.Add(qbi, big.NewInt(1))
 				} else {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From 29ca58d789244bfd6b70e74c684e83e64cecb5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 04/82] fix: Div of *big.Int when the quotient and divisor are
 the same *big.Int

---
 math/math.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/math/math.go b/math/math.go
index 9769007..b0bab40 100755
--- a/math/math.go
+++ b/math/math.go
@@ -318,16 +318,18 @@ var (
 			// Use signs of dividend and divisor, as a zero quotient has no sign
 			sameSign := debi.Sign() == dvbi.Sign()
 
-			r := big.NewInt(0)
-			qbi.QuoRem(debi, dvbi, r)
-			r.Abs(r)
-
+			// Examine divisor before dividing, the quotient and divisor can be the same *big.Int
 			halfdv := big.NewInt(0).SetBytes(dvbi.Bytes())
 			halfdv.Abs(halfdv)
 			halfdv.Rsh(halfdv, 1)
 
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
+
+			r := big.NewInt(0)
+			qbi.QuoRem(debi, dvbi, r)
+			r.Abs(r)
+
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
 				if sameSign {
 					qbi.Add(qbi, big.NewInt(1))
-- 
2.43.0


From 8d59f5b8a91809c58488eb3338d9d0c863356550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 05/82] fix: Div wraps around when dividing the smallest signed
 integer by -1

---
 math/math.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/math/math.go b/math/math.go
index b0bab40..0bdb9c9 100755
--- a/math/math.go
+++ b/math/math.go
@@ -160,6 +160,11 @@ var (
 				return DivByZeroErr
 			}
 
+			// There is no positive value of the same magnitude as the smallest value
+			if (de.(int) == math.MinInt) && (dvi == -1) {
+				return OverflowErr
+			}
+
 			qi := any(q).(*int)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int)), int64(dvi), &qi64)
@@ -174,6 +179,11 @@ var (
 				return DivByZeroErr
 			}
 
+			// There is no positive value of the same magnitude as the smallest value
+			if (de.(int8) == math.MinInt8) && (dvi == -1) {
+				return OverflowErr
+			}
+
 			qi := any(q).(*int8)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int8)), int64(dvi), &qi64)
@@ -188,6 +198,11 @@ var (
 				return DivByZeroErr
 			}
 
+			// There is no positive value of the same magnitude as the smallest value
+			if (de.(int16) == math.MinInt16) && (dvi == -1) {
+				return OverflowErr
+			}
+
 			qi := any(q).(*int16)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int16)), int64(dvi), &qi64)
@@ -202,6 +217,11 @@ var (
 				return DivByZeroErr
 			}
 
+			// There is no positive value of the same magnitude as the smallest value
+			if (de.(int32) == math.MinInt32) && (dvi == -1) {
+				return OverflowErr
+			}
+
 			qi := any(q).(*int32)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int32)), int64(dvi), &qi64)
@@ -216,6 +236,11 @@ var (
 				return DivByZeroErr
 			}
 
+			// There is no positive value of the same magnitude as the smallest value
+			if (de.(int64) == math.MinInt64) && (dvi == -1) {
+				return OverflowErr
+			}
+
 			qi := any(q).(*int64)
 			divSInt(de.(int64), dvi, qi)
 
@@ -515,6 +540,9 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // - If the divisor is odd,  and abs(remainder) >  abs(divisor) / 2, then increase magnitude of quotient by one.
 //
 // Increasing the magnitude by one means add one of the quotient is positive, subtract one if negative.
+// An error is returned if an integer is divided by zero, or if the smallest signed integer is divided by -1, as there is no
+// corresponding positive value.
+//
 // The purpose of adjusting the magnitude is to get the same result as rounding the floating point calculation.
 // Floats are not used since 32 and 64 bit integer values can have a magnitude too large to be expressed accurately
 // in a float.
-- 
2.43.0


From 6fb4c3176920df9aeb6bcc421f1ac4e144ad8da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 06/82] fix: OfRange accepts an initial value outside the range

---
 math/range.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/range.go b/math/range.go
index 6b8eee4..8d80c27 100755
--- a/math/range.go
+++ b/math/range.go
@@ -53,7 +53,10 @@ func OfRange[T constraint.IntegerAndFloat](
 		panic(fmt.Errorf(errMinMaxMsg, minStr, maxStr))
 	}
 
-	return Range[T]{min, minMode, max, maxMode, initial}
+	r := Range[T]{min, minMode, max, maxMode, initial}
+	funcs.Must(r.SetValue(initial))
+
+	return r
 }
 
 // GetMin returns the minimum value and mode
-- 
2.43.0


From 1641cf9b76befd4a24e4fb89cf39afa5d0188c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 07/82] fix: StringToDecimal accepts strings with trailing
 garbage

---
 math/decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index c6c1b16..94a1ca7 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -16,7 +16,7 @@ import (
 
 var (
 	// optional minus sign, zero or more digits, optional dot and zero or more digits.
-	decimalRegex = regexp.MustCompile("(-?)([0-9]*)[.]?([0-9]*)")
+	decimalRegex = regexp.MustCompile("^(-?)([0-9]*)[.]?([0-9]*)$")
 
 	// Powers of 10 constants from 10^0 thru 10^18 (scale can be 0 - 18)
 	powersOf10 = []int64{
-- 
2.43.0


From a129bd4da3b6c95ac84d18cfdc3fadba4b06a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 08/82] fix: AdjustDecimalScale loses digits when adjusting the
 scale of a zero value

---
 math/decimal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math/decimal.go b/math/decimal.go
index 94a1ca7..cd2031f 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -278,6 +278,12 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 	    d1, d2 = d2, d1
 	}
 
+	// A zero value has the same value at any scale
+	if d2.value == 0 {
+		d2.scale = d1.scale
+		return nil
+	}
+
 	// Convert d1 and d2 to strings of digits only, to see how many significant digits they possess
 	var str1, str2 string
 	str1 = conv.IntToString(funcs.Ternary(d1.value >= 0, d1.value, -d1.value))
-- 
2.43.0


From e6bb3da1dd05064255400b3686ca47c0674ec845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 09/82] fix: AdjustDecimalScale panics or returns wrong value
 when rounding a decimal with no integer digits

---
 math/decimal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math/decimal.go b/math/decimal.go
index cd2031f..da5edae 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -316,6 +316,12 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 			return fmt.Errorf(errValueTooSmallToRoundMsg, d2.String())
 		}
 
+		// If d1 has no integer digits, add leading zeros so that there is one, and the first decimal digit can be examined
+		if len1 <= scaleDiff {
+			str1 = strings.Repeat("0", scaleDiff+1-len1) + str1
+			len1 = len(str1)
+		}
+
 		// Round by manipulating digits directly in string as a []byte
 		dig1 := []byte(str1)
 
-- 
2.43.0


From 162732c0c03b70b85cb5ddc3bf8898e5017983f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 10/82] fix: DivIntQuoRem accepts divisors that do not fit in
 an int64

---
 math/decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index da5edae..98364c8 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -763,7 +763,7 @@ func (d Decimal) DivIntQuoRem(o uint) (Decimal, Decimal, error) {
 	for i := uint(0); i < d.scale; i++ {
 		intPartOfD /= 10
 	}
-	if int64(o) > intPartOfD {
+	if uint64(o) > uint64(intPartOfD) {
 		return Decimal{}, Decimal{}, fmt.Errorf(errDecimalDivisorTooLargeMsg, d, o)
 	}
 
-- 
2.43.0


From 7144b3c999896bf48d7a44b391ac9c6d3082fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 11/82] fix: DivIntAdd values do not add up to the dividend if
 it is negative or the remainder is normalized

---
 math/decimal.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 98364c8..9043056 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -786,20 +786,26 @@ func (d Decimal) MustDivIntQuoRem(o uint) (Decimal, Decimal) {
 // EG, 100.00 / 3 = [33.34, 33.33, 33.33].
 // This method just calls DivIntQuoRem and spreads the remainder across the first remainder values returned.
 func (d Decimal) DivIntAdd(o uint) ([]Decimal, error) {
-	// Get the quotient and remainder, returning (nil, error) if an error is returned
-	q, r, e := d.DivIntQuoRem(o)
+	// Get the quotient, returning (nil, error) if an error is returned
+	q, _, e := d.DivIntQuoRem(o)
 	if e != nil {
 		return nil, e
 	}
 
-	// Remainder is just a count of how many values need to be increased by 1
+	// Remainder is just a count of how many values need their magnitude increased by 1
+	// The remainder returned by DivIntQuoRem may have a smaller scale, so calculate it from the values, which have the same scale
+	// The remainder is negative if d is negative
 	var (
-		rc  = r.value
-		res = make([]Decimal, o)
+		rc   = d.value - q.value*int64(o)
+		unit = funcs.Ternary(rc < 0, int64(-1), 1)
+		res  = make([]Decimal, o)
 	)
 	for i := int64(0); i < int64(o); i++ {
-		res[i] = Decimal{scale: d.scale, value: q.value + int64(funcs.Ternary(rc > 0, 1, 0)), denormalized: d.denormalized}
-		rc--
+		res[i] = Decimal{scale: d.scale, value: q.value, denormalized: d.denormalized}
+		if rc != 0 {
+			res[i].value += unit
+			rc -= unit
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From e14755360edf0755f190d6bb67ad07f7cb26b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 12/82] fix: Decimal Div panics if the divisor is zero

---
 math/decimal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math/decimal.go b/math/decimal.go
index 9043056..eb5bf0b 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -933,6 +933,11 @@ func (d Decimal) MustDivIntAdd(o uint) []Decimal {
 // = 1 * 10^18
 // = overflow
 func (d Decimal) Div(o Decimal) (Decimal, error) {
+	// If o is 0, return division by zero error
+	if o.value == 0 {
+		return Decimal{}, fmt.Errorf(errDecimalDivisionByZeroMsg, d)
+	}
+
 	// Check if d and o are positive (>= 0)
 	// 	fmt.Printf("%s / %s\n", d, o)
 	dpos, opos := d.value >= 0, o.value >= 0
-- 
2.43.0


From e198c969bd62d00b8262736f6e2044425faf504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 13/82] fix: Decimal Div generates wrong digits when
 intermediate values overflow, rounds by wrong digit, and exceeds maximum
 scale

---
 math/decimal.go | 89 ++++++++++++++++++++-----------------------------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index eb5bf0b..a50703a 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -5,6 +5,7 @@ package math
 import (
 	"fmt"
     "math/big"
+	"math/bits"
 	"regexp"
 	"slices"
 	"strconv"
@@ -958,69 +959,50 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 	// Scale is dividend - divisor, could be negative
 	s := int(d.scale - o.scale)
 
-	// If scale is negative, multiply q,r by 10^(-scale), set scale = 0
-	// If the multiplications go beyond the limit of digits, we have to error out
+	// If scale is negative, generate (-scale) more digits of the quotient, set scale = 0
+	// If the quotient goes beyond the limit of digits, we have to error out
 	for s < 0 {
-		q *= 10
-		r *= 10
+		if q > decimalMaxValue/10 {
+			// Return over/underflow
+			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+		}
+
+		// Next digit is (r * 10) / oval, where r * 10 may require more than 64 bits, and the digit is 0 - 9 since r < oval
+		hi, lo := bits.Mul64(uint64(r), 10)
+		dig, rmdr := bits.Div64(hi, lo, uint64(oval))
+
+		q = q*10 + int64(dig)
+		r = int64(rmdr)
 		s += 1
+	}
 
-		if q > decimalMaxValue {
-			// Return over/underflow
+	// Generate one digit at a time after the decimal until there is no remainder, there is no room in the quotient for
+	// another digit, or the maximum scale has been reached.
+	for (r != 0) && (q <= decimalMaxValue/10) && (s < decimalMaxScale) {
+		// If remainder exceeds max value, over/underflow occurs
+		if r > decimalMaxValue/10 {
 			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 		}
+
+		r *= 10
+		q = q*10 + r/oval
+		r %= oval
+		s++
 	}
 
-	// If r != 0, perform successive multiply/divides until r = 0
-main_loop:
-	for r != 0 {
-		// Multiply q,r by 10 until r >= o
-		for r < oval {
-			nq, nr, ns := q*10, r*10, s+1
-			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
-
-			// If quotient exceeds max value, fall back on previous quotient, as most accurate result we can get
-			if nq > decimalMaxValue {
-				// fmt.Println("ran out of digits")
-
-				// Get next generated digit, so we know if we should round up the existing quotient
-				// Remainder may be < oval, multiply by 10 until it isn't
-				for nr < oval {
-					nr *= 10
-				}
-				nr /= oval
-				// fmt.Printf("next digit remainder = %d\n", nr)
-
-				// New remainder may be > 10
-				// If so, divide by 10 until remainder < 10, to get most significant digit of it
-				for nr > 10 {
-					nr /= 10
-				}
-				// fmt.Printf("next digit = %d\n", nr)
-
-				// Is next digit >= 5?
-				if nr >= 5 {
-					// fmt.Printf("Rounding up")
-					q++
-				}
-
-				break main_loop
-			}
+	// Round up if the remaining digits are at least half of the last digit, which is when 2r >= oval
+	if r >= oval-r {
+		q++
 
-			// If remainder exceeds max value, over/underflow occurs
-			if nr > decimalMaxValue {
-				// fmt.Println("exceeded max")
+		// Rounding 18 9s produces 1 followed by 18 zeros, which requires dropping the last zero, or it is an over/underflow
+		if q > decimalMaxValue {
+			if s == 0 {
 				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 			}
 
-			// Copy new quotient, remainder, scale into current
-			q = nq
-			r = nr
-			s = ns
+			q /= 10
+			s--
 		}
-
-		// Add r / oval to q, set r to r mod oval
-		q, r = q+r/oval, r%oval
 	}
 
 	// If original signs differed, then result is negative
@@ -1029,7 +1011,10 @@ main_loop:
 	}
 
 	// Return result
-	return Decimal{value: q, scale: uint(s), denormalized: d.denormalized}, nil
+	res := Decimal{value: q, scale: uint(s), denormalized: d.denormalized}
+	res.applyNormalization()
+
+	return res, nil
 }
 
 // MustDiv is a must version of Div
-- 
2.43.0


From f1152e8f9b8affe3b639bdf9e70e961800dbf7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 14/82] fix: Decimal Mul wrong scale for 19 digit results, and
 wrong rounding when more than one digit is removed

---
 math/decimal.go | 144 ++++++++++++++++--------------------------------
 1 file changed, 46 insertions(+), 98 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index a50703a..5ad0a5f 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -8,7 +8,6 @@ import (
 	"math/bits"
 	"regexp"
 	"slices"
-	"strconv"
 	"strings"
 
 	"github.com/bantling/micro/conv"
@@ -602,18 +601,19 @@ func (d Decimal) MustSub(o Decimal) Decimal {
 //
 // r = d * o is tried first
 // If r = 0, then return 0 scale 0.
-// If r / d = o, then if r > max value or < min value, we have a valid result 19 digits in length.
-//	- Round it to 18 with single divide by 10, and add 1 if remainder >= 5.
-//	- Given max int64 value starts with 92, divide by 10 and add 1 cannot go back up 19 digits.
+// If r / d = o, then we have a valid 64-bit result.
 //
-// Otherwise If r / d != o, it is a 64-bit overflow, use BigInt to multiply the two numbers, and get the base 10 string.
-// The resulting scale rs is d scale + o scale, and we need to round (length - 18) times:
-//  - Check that resulting scale >= length - 18. If not, the integer portion is too large, it is an overflow.
-//  - Otherwise, round length - 18 times to bring the result down to max of 18 digits.
+// Otherwise If r / d != o, it is a 64-bit overflow, use BigInt to multiply the two numbers.
+//
+// The resulting scale rs is d scale + o scale. Decimal digits are rounded off until there are at most 18 digits, and the
+// scale is at most 18:
+//  - If there are more digits to remove than there are decimal digits, the integer portion is too large, it is an overflow.
+//  - Otherwise, the digits are removed all at once by dividing by a power of ten, so that the result is only rounded once.
+//  - If rounding up results in 19 digits, one more digit has to be removed.
 //
 // If the result is 0, return 0 scale 0, else return r scale rs.
 func (d Decimal) Mul(o Decimal) (Decimal, error) {
-    // Ensure both values are non-negative
+	// Ensure both values are non-negative
 	var (
 		dval = d.value
 		dpos = dval >= 0
@@ -631,102 +631,50 @@ func (d Decimal) Mul(o Decimal) (Decimal, error) {
 		oval = -oval
 	}
 
-	// Try just multiplying the two 64-bit values together, and see if the result fits in 64 bits
+	// Try just multiplying the two 64-bit values together, and see if the result fits in 64 bits and does not need rounding
 	var (
 		rval = dval * oval
 		rpos = dpos == opos
 	)
 
-    // Flag to track if we have a 19 digit number that could possibly round to 18, if scale > 0
-    var round19 bool
-
-	// If result is 0, nothing more to do
-	if dval != 0 {
-		// If rval / dval != oval, the binary result overflowed, and we have to use a different technique
-		// Otherwise, it is possible we have a 19 digit value that we can try and round down to 18
-		// Since we already checked dval != 0, we cannot get division by zero
-		if round19 = rval / dval == oval; !round19 {
-		    // If the scale is 0, it is an integer value that must overflow
-            if rscale == 0 {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-			// We need a 128-bit result, so use BigInt
-            bi := big.NewInt(dval)
-            bi = bi.Mul(bi, big.NewInt(oval))
-
-            // Get result as a decimal string, converted to a slice of ascii bytes
-            base10 := []byte(bi.Text(10))
-
-            // Normalize by removing insignificant 0s at the end, as long as they are after the decimal
-            for (rscale > 0) && (base10[len(base10)-1] - '0' == 0) {
-                rscale--
-                base10 = base10[:len(base10)-1]
-            }
-
-            // The length of the string - result scale = number of integer digits
-            // It is an overflow if the number of integer digits > 18
-            if (len(base10) - int(rscale) > 18) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-            // While the total length > 18, round off decimal digits until it isn't
-            // This may round to an integer, or may still have some decimals
-            var digit, carry byte
-            for ; len(base10) > 18; base10 = base10[:len(base10) - 1] {
-                digit = base10[len(base10) - 1] - '0' + carry
-                carry = 0
-                if digit >= 5 {
-                    carry = 1
-                }
-                rscale--
-            }
-
-            // Get final digit
-            digit = base10[len(base10) - 1] - '0'
-
-            // Convert byte slice back to a 64 bit int (cannot fail, as it is <= 18 digits in length)
-            rval, _ = strconv.ParseInt(string(base10), 10, 64)
-
-            // Add 1 if the final carry is 1 and final digit >= 5
-            // Let the binary add ripple the carry as needed
-            if (carry == 1) && (digit >= 5) {
-                rval++
-
-                // It is possible we just added 1 to an 18 digit value that became a 19 digit value
-                round19 = true
-            }
+	// If rval / dval != oval, the binary result overflowed
+	if (dval != 0) && ((rval/dval != oval) || (rval > decimalMaxValue) || (rscale > decimalMaxScale)) {
+		// We may need a 128-bit result, so use BigInt
+		var (
+			bi   = new(big.Int).Mul(big.NewInt(dval), big.NewInt(oval))
+			ten  = big.NewInt(10)
+			drop = uint(funcs.Ternary(rscale > decimalMaxScale, int(rscale)-decimalMaxScale, 0))
+		)
+
+		// Remove at least enough decimal digits to have 18 significant digits
+		if numDigits := uint(len(bi.Text(10))); numDigits > decimalMaxScale {
+			drop = MaxOrdered(drop, numDigits-decimalMaxScale)
 		}
-	}
 
-    if round19 && (rval > decimalMaxValue) {
-        // If we have no decimal digits, we cannot round
-        if rscale == 0 {
-            return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-        }
-
-        // Round one digit
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-
-            // If we have 18 9's, then adding 1 would make it 19 digits again
-            if (rval > decimalMaxValue) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-        }
-    }
-
-    // If rscale > 18, then we need to round off digits until it is down to 18
-    for rscale > 18 {
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-        }
-        rscale--
-    }
+		for {
+			// It is an overflow if we have to remove integer digits
+			if drop > rscale {
+				return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
+			}
+
+			// Remove digits, and add 1 if the digits removed are >= half of the last digit kept
+			var (
+				pow  = new(big.Int).Exp(ten, new(big.Int).SetUint64(uint64(drop)), nil)
+				q, r = new(big.Int).QuoRem(bi, pow, new(big.Int))
+			)
+			if r.Lsh(r, 1).Cmp(pow) >= 0 {
+				q.Add(q, big.NewInt(1))
+			}
+
+			// If we have 18 9's, then adding 1 makes it 19 digits, and one more digit has to be removed
+			if rval = q.Int64(); rval <= decimalMaxValue {
+				break
+			}
+			drop++
+		}
+
+		rscale -= drop
+	}
 
 	// Perform common final operations, regardless of which technique was used to get the result
 	if !rpos {
-- 
2.43.0


From 59e0557eaba7cf5e9c98ceeb603dc192035dfe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 15/82] fix: BigFloatToBigRat only uses ten digits, so float
 conversions to *big.Rat, int, and uint lose digits

---
 conv/bigrat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 6a997c8..a58bf79 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -49,7 +49,8 @@ func BigFloatToBigRat(ival *big.Float, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Rat")
 	}
 
-	*oval, _ = big.NewRat(1, 1).SetString(BigFloatToString(ival))
+	// Cannot fail, and is always exact, as the value is finite
+	*oval, _ = ival.Rat(nil)
 	return nil
 }
 
-- 
2.43.0


From b8f99ea9eb162b2d7d4963aad1fccffdf9b20f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 16/82] fix: ToBigOps panics if the input is a primitive
 subtype

---
 conv/conv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..893f0c7 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1120,8 +1120,9 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		return fmt.Errorf(errONonNilMsg, o)
 	}
 
+	// If i is a subtype, convert it to the base type, so we can find a conversion function
 	var (
-		ival = goreflect.ValueOf(i)
+		ival = reflect.ValueToBaseType(goreflect.ValueOf(i))
 		ityp = ival.Type()
 		oval = goreflect.ValueOf(o) // o cannot be nil, but o.Elem() can be nil
 		otyp = oval.Type().Elem()   // o.Type().Elem() cannot be nil
-- 
2.43.0


From 8eeaae5d744ef02abacbb1c21da18a0aec14496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 17/82] fix: To converts big types to a float32 with a loss of
 precision

---
 conv/conv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 893f0c7..90f1c4b 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -697,21 +697,21 @@ var (
 			if err := BigIntToFloat64(t.(*big.Int), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigIntToFloat32(t.(*big.Int), u.(*float32))
 		},
 		"*big.Floatfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigFloatToFloat64(t.(*big.Float), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigFloatToFloat32(t.(*big.Float), u.(*float32))
 		},
 		"*big.Ratfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigRatToFloat64(t.(*big.Rat), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigRatToFloat32(t.(*big.Rat), u.(*float32))
 		},
 		"stringfloat32": func(t any, u any) error {
 			return StringToFloat32(t.(string), u.(*float32))
-- 
2.43.0


From 2f2f16c3402c940cabcd2388144604b62ab3cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 18/82] fix: To and ToBigOps copies of big types share memory
 with the original

---
 conv/conv.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 90f1c4b..365d70e 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1009,6 +1009,18 @@ var (
 	}
 )
 
+// copyBig copies the value of a non-nil big type to another non-nil big type of the same type, without sharing any memory
+func copyBig(ival, oval any) {
+	switch src := ival.(type) {
+	case *big.Int:
+		oval.(*big.Int).Set(src)
+	case *big.Float:
+		oval.(*big.Float).Copy(src)
+	case *big.Rat:
+		oval.(*big.Rat).Set(src)
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1045,7 +1057,7 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				copyBig(ival.Interface(), oval.Elem().Interface())
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1141,7 +1153,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			copyBig(ival.Interface(), oval.Elem().Interface())
 		}
 
 		return nil
-- 
2.43.0


From b8119325787fe5a638f690697c9fcc61571f9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 19/82] fix: BigRatToBigInt result is a reference to the
 numerator of the input

---
 conv/bigint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..7c5affb 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Num returns a reference to the numerator, copy it
+	*oval = new(big.Int).Set(ival.Num())
 	return nil
 }
 
-- 
2.43.0


From de4fac292ca1354485b8f9290e2a13bad0ea1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 20/82] fix: UintToBigFloat rounds values that have more than
 53 bits

---
 conv/bigfloat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 709b853..dd88cab 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"math/bits"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -21,7 +22,8 @@ func IntToBigFloat[T constraint.SignedInteger](ival T, oval **big.Float) {
 
 // UintToBigFloat converts any unsigned int type into a *big.Float
 func UintToBigFloat[T constraint.UnsignedInteger](ival T, oval **big.Float) {
-	*oval = big.NewFloat(0).SetUint64(uint64(ival))
+	prec := uint(math.Max(53, float64(bits.Len64(uint64(ival)))))
+	*oval = big.NewFloat(0).SetPrec(prec).SetUint64(uint64(ival))
 }
 
 // FloatToBigFloat converts any float type into a *big.Float
-- 
2.43.0


From ce8ae883fe4e8b9f39345fb90ca858f1bdbe3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 21/82] fix: BigRatToBigFloat loses digits of values close to
 zero

---
 conv/bigfloat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index dd88cab..860ba15 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -49,8 +49,8 @@ func BigIntToBigFloat(ival *big.Int, oval **big.Float) {
 // BigRatToBigFloat converts a *big.Rat to a *big.Float
 func BigRatToBigFloat(ival *big.Rat, oval **big.Float) {
 	// Use numerator to calculate the precision, shd be accurate since denominator is basically the exponent
-	prec := int(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
-	*oval, _, _ = big.ParseFloat(ival.FloatString(prec), 10, uint(prec), big.ToNearestEven)
+	prec := uint(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
+	*oval = new(big.Float).SetPrec(prec).SetRat(ival)
 
 	// Set accuracy to exact
 	(*oval).SetMode((*oval).Mode())
-- 
2.43.0


From 6a523eac104517739efa1d5189aa2353e315bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 22/82] fix: AnyTo panics if the input is nil

---
 conv/conv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conv/conv.go b/conv/conv.go
index 365d70e..5232b08 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1080,6 +1080,11 @@ func MustTo[I, O constraint.Numeric | string](i I, o *O) {
 // AnyTo is a version of To that accepts input values of type any
 // The output value must still satisfy constraint.Numeric | string
 func AnyTo[O constraint.Numeric | string](i any, o *O) error {
+	// A nil value has no type
+	if i == nil {
+		return fmt.Errorf(errAnyToInvalidIMsg, "nil")
+	}
+
 	var (
 		iv   = goreflect.ValueOf(i)
 		ival = reflect.ValueToBaseType(iv).Interface()
-- 
2.43.0


From f0042580a3a30f8e09852d4690e5403ac17f9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 23/82] fix: FloatToFloat does not check the range of float32
 subtypes

---
 conv/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/float.go b/conv/float.go
index 219fd77..0997bb9 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -43,7 +43,7 @@ func FloatToFloat[I constraint.Float, O constraint.Float](ival I, oval *O) error
 		return nil
 	}
 
-	if _, isa := any(oval).(*float32); isa && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
+	if (NumBits(*oval) == 32) && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
 		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%g", ival64), "float32")
 	}
 
-- 
2.43.0


From 66f71fd135b6d463b5c113b7dde2e48b5b263a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 24/82] fix: BigRatToFloat32 and BigRatToFloat64 convert values
 that underflow to zero

---
 conv/float.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conv/float.go b/conv/float.go
index 0997bb9..6a3c6d6 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -97,8 +97,9 @@ func MustBigFloatToFloat32(ival *big.Float, oval *float32) {
 // BigRatToFloat32 converts a *big.Rat to a float32
 // Returns an error if the *big.Rat cannot be represented as a float32
 func BigRatToFloat32(ival *big.Rat, oval *float32) error {
+	// Float32 reports exact for some values that are too close to zero, where the result is zero
 	var exact bool
-	if *oval, exact = ival.Float32(); !exact {
+	if *oval, exact = ival.Float32(); (!exact) || ((*oval == 0) && (ival.Sign() != 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float32")
 	}
 
@@ -174,8 +175,9 @@ func MustBigFloatToFloat64(ival *big.Float, oval *float64) {
 // BigRatToFloat64 converts a *big.Rat to a float64
 // Returns an error if the *big.Rat cannot be represented as a float64
 func BigRatToFloat64(ival *big.Rat, oval *float64) error {
+	// Float64 reports exact for some values that are too close to zero, where the result is zero
 	var exact bool
-	if *oval, exact = ival.Float64(); !exact {
+	if *oval, exact = ival.Float64(); (!exact) || ((*oval == 0) && (ival.Sign() != 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float64")
 	}
 
-- 
2.43.0


From 51d348509734e25f52cc5c0fee0a81ae13721640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 25/82] fix: FloatStringToBigRat result is nil without an error
 for some infinities and large exponents

---
 conv/bigrat.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index a58bf79..b3636f0 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -87,8 +87,11 @@ func FloatStringToBigRat(ival string, oval **big.Rat) error {
 		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
 	}
 
-	// If it is a float string, cannot fail to be parsed by StringToBigRat
-	StringToBigRat(ival, oval)
+	// A float string may still be other forms of infinity, or have an exponent that is too large for a *big.Rat
+	if err = StringToBigRat(ival, oval); err != nil {
+		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1e9582437fe4aa690542ed054b73c6d6a7b787d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 26/82] fix: StringToFloat32 and StringToFloat64 reject strings
 produced by FloatToString

---
 conv/float.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/conv/float.go b/conv/float.go
index 6a3c6d6..4e3840b 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"math/big"
 	goreflect "reflect"
+	"strconv"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -56,6 +57,13 @@ func MustFloatToFloat[I constraint.Float, O constraint.Float](ival I, oval *O) {
 	funcs.Must(FloatToFloat(ival, oval))
 }
 
+// isFloatString returns true if a decimal string has the same value as the string FloatToString returns for a float.
+// Such a string identifies the float, even though a decimal usually cannot be represented exactly by a float.
+func isFloatString[F constraint.Float](str string, val F) bool {
+	var inter1, inter2 *big.Rat
+	return (FloatStringToBigRat(str, &inter1) == nil) && (FloatStringToBigRat(FloatToString(val), &inter2) == nil) && (inter1.Cmp(inter2) == 0)
+}
+
 // ==== ToFloat32
 
 // BigIntToFloat32 converts a *big.Int to a float32
@@ -121,11 +129,17 @@ func StringToFloat32(ival string, oval *float32) error {
 		return nil
 	}
 
-	if (StringToBigFloat(ival, &inter) != nil) || (BigFloatToFloat32(inter, oval) != nil) {
-		return fmt.Errorf(errMsg, ival, ival, "float32")
+	if (StringToBigFloat(ival, &inter) == nil) && (BigFloatToFloat32(inter, oval) == nil) {
+		return nil
 	}
 
-	return nil
+	// Accept a string that FloatToString produces
+	if fval, err := strconv.ParseFloat(ival, 32); (err == nil) && isFloatString(ival, float32(fval)) {
+		*oval = float32(fval)
+		return nil
+	}
+
+	return fmt.Errorf(errMsg, ival, ival, "float32")
 }
 
 // MustStringToFloat32 is a Must version of StringToFloat32
@@ -199,11 +213,17 @@ func StringToFloat64(ival string, oval *float64) error {
 		return nil
 	}
 
-	if (StringToBigFloat(ival, &inter) != nil) || (BigFloatToFloat64(inter, oval) != nil) {
-		return fmt.Errorf(errMsg, ival, ival, "float64")
+	if (StringToBigFloat(ival, &inter) == nil) && (BigFloatToFloat64(inter, oval) == nil) {
+		return nil
 	}
 
-	return nil
+	// Accept a string that FloatToString produces
+	if fval, err := strconv.ParseFloat(ival, 64); (err == nil) && isFloatString(ival, fval) {
+		*oval = fval
+		return nil
+	}
+
+	return fmt.Errorf(errMsg, ival, ival, "float64")
 }
 
 // MustStringToFloat64 is a Must version of StringToFloat64
-- 
2.43.0


From 8541d9f1a9127c209fdeab5051a1931246a7bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 27/82] fix: BigFloatToString loses digits after the tenth

---
 conv/string.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conv/string.go b/conv/string.go
index e6f846d..a8a9b77 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -33,7 +33,13 @@ func BigIntToString(val *big.Int) string {
 
 // BigFloatToString converts a *big.Float to a string
 func BigFloatToString(val *big.Float) string {
-	return val.String()
+	// String only provides ten digits, use as many as are required if that is not enough to represent the value
+	str := val.String()
+	if inter, _, err := big.ParseFloat(str, 10, val.Prec(), big.ToNearestEven); (err == nil) && (inter.Cmp(val) == 0) {
+		return str
+	}
+
+	return val.Text('g', -1)
 }
 
 // BigRatToString converts a *big.Rat to a string.
-- 
2.43.0


From 24b61ab25197abb948394582f90ca8c18291c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 28/82] fix: BigRatToNormalizedString loses digits after the
 tenth

---
 conv/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/string.go b/conv/string.go
index a8a9b77..4ca05fd 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -57,5 +57,5 @@ func BigRatToNormalizedString(val *big.Rat) string {
 
 	var inter *big.Float
 	BigRatToBigFloat(val, &inter)
-	return inter.String()
+	return BigFloatToString(inter)
 }
-- 
2.43.0


From 341841e636c506146bd477ef426b5579c131db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 29/82] fix: StringToFloat32 and StringToFloat64 take minutes
 to reject strings with a large exponent

---
 conv/float.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/conv/float.go b/conv/float.go
index 4e3840b..e929e79 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -129,8 +129,12 @@ func StringToFloat32(ival string, oval *float32) error {
 		return nil
 	}
 
-	if (StringToBigFloat(ival, &inter) == nil) && (BigFloatToFloat32(inter, oval) == nil) {
-		return nil
+	// Do not use BigFloatToFloat32, the error contains all digits of the value, and there may be millions of them
+	if StringToBigFloat(ival, &inter) == nil {
+		var acc big.Accuracy
+		if *oval, acc = inter.Float32(); acc == big.Exact {
+			return nil
+		}
 	}
 
 	// Accept a string that FloatToString produces
@@ -213,8 +217,12 @@ func StringToFloat64(ival string, oval *float64) error {
 		return nil
 	}
 
-	if (StringToBigFloat(ival, &inter) == nil) && (BigFloatToFloat64(inter, oval) == nil) {
-		return nil
+	// Do not use BigFloatToFloat64, the error contains all digits of the value, and there may be millions of them
+	if StringToBigFloat(ival, &inter) == nil {
+		var acc big.Accuracy
+		if *oval, acc = inter.Float64(); acc == big.Exact {
+			return nil
+		}
 	}
 
 	// Accept a string that FloatToString produces
-- 
2.43.0


From ea8218478ba0124e5a51d1a6729ff1332074ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 30/82] fix: BigFloatToString loses precision where the
 shortest string of a big.Float does not represent it

---
 conv/string.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/conv/string.go b/conv/string.go
index 4ca05fd..3b2bdfa 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -3,6 +3,7 @@ package conv
 // SPDX-License-Identifier: Apache-2.0
 
 import (
+	"math"
 	"math/big"
 	"strconv"
 
@@ -33,13 +34,16 @@ func BigIntToString(val *big.Int) string {
 
 // BigFloatToString converts a *big.Float to a string
 func BigFloatToString(val *big.Float) string {
-	// String only provides ten digits, use as many as are required if that is not enough to represent the value
-	str := val.String()
-	if inter, _, err := big.ParseFloat(str, 10, val.Prec(), big.ToNearestEven); (err == nil) && (inter.Cmp(val) == 0) {
-		return str
+	// String only provides ten digits, use the shortest string if that is not enough to represent the value.
+	// The shortest string of big.Float is sometimes one digit too short.
+	for _, str := range []string{val.String(), val.Text('g', -1)} {
+		if inter, _, err := big.ParseFloat(str, 10, val.Prec(), big.ToNearestEven); (err == nil) && (inter.Cmp(val) == 0) {
+			return str
+		}
 	}
 
-	return val.Text('g', -1)
+	// This many digits always represent the value
+	return val.Text('g', int(math.Ceil(float64(val.Prec())/log2Of10))+1)
 }
 
 // BigRatToString converts a *big.Rat to a string.
-- 
2.43.0


From e1d7d3f092f0bb7c6bcf98035346d2246a094d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 31/82] fix: ErrorReader panics when a read asks for more bytes
 than remain after a previous read

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From 8c8ab8cdd23c932b3263473f94dd75aeb076ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 32/82] fix: string and line writers report the number of bytes
 as the number of runes in errors

---
 io/writer/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/writer/gen.go b/io/writer/gen.go
index d00c8ee..ff52c57 100755
--- a/io/writer/gen.go
+++ b/io/writer/gen.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"runtime"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -88,7 +89,7 @@ func IOWriterAsStringsGen(dst io.Writer) func(string) error {
 		if n, err := dst.Write(p); err != nil {
 			return err
 		} else if n < len(p) {
-			return fmt.Errorf(errIOStringWriterMsg, n, len(val), len(p))
+			return fmt.Errorf(errIOStringWriterMsg, n, utf8.RuneCountInString(val), len(p))
 		}
 
 		return nil
@@ -112,7 +113,7 @@ func IOWriterAsLinesGen(dst io.Writer) func(string) error {
 		if n, err := dst.Write(p); err != nil {
 			return err
 		} else if n < len(p) {
-			return fmt.Errorf(errIOStringWriterMsg, n, len(valEOL), len(p))
+			return fmt.Errorf(errIOStringWriterMsg, n, utf8.RuneCountInString(valEOL), len(p))
 		}
 
 		return nil
-- 
2.43.0


From 1eecaf077bb7b1e9f9e7e6ac2751127709ab501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 33/82] fix: ReaderIterGen loses the last byte, repeats bytes,
 or changes errors, depending on how the reader returns them

---
 iter/gen.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..f2b887d 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -173,6 +173,35 @@ func FibonnaciIterGen() func() (int, error) {
 	)
 }
 
+// maxEmptyReads is the number of consecutive reads of no bytes and no error before giving up on an io.Reader
+const maxEmptyReads = 100
+
+// nextByte generates a function that reads the next byte of an io.Reader, the error is always nil if there is a byte.
+// All behaviours an io.Reader is allowed to have are handled:
+// - If a byte and an error are returned, the byte is returned with a nil error, further calls return (0, error)
+// - If no byte and no error are returned, the read is repeated, until io.ErrNoProgress is returned
+func nextByte(src goio.Reader) func() (byte, error) {
+	var (
+		buf = make([]byte, 1)
+		n   int
+		err error
+	)
+
+	return func() (byte, error) {
+		for i := 0; (err == nil) && (i < maxEmptyReads); i++ {
+			if n, err = src.Read(buf); n > 0 {
+				return buf[0], nil
+			}
+		}
+
+		if err == nil {
+			err = goio.ErrNoProgress
+		}
+
+		return 0, err
+	}
+}
+
 // ReaderIterGen generates an iterating function that iterates all the bytes of an io.Reader.
 // If the reader returns an EOF, it is translated to an EOI, any other error is returned as is.
 // If the iter is called again after returning a non-nil error, it returns (0, same error).
@@ -181,7 +210,7 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 	var (
 		done = src == nil
 		err  = EOI
-		buf  = make([]byte, 1)
+		next = nextByte(src)
 	)
 
 	return func() (byte, error) {
@@ -189,19 +218,20 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		var val byte
+		if val, err = next(); err != nil {
 			done = true
 			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
 					}
 				}
 			}
 			return 0, err
 		}
 
-		return buf[0], nil
+		return val, nil
 	}
 }
 
-- 
2.43.0


From 5c81193e999b5b980249f39ac2fc23b0d157a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 34/82] fix: ReaderAsRunesIterGen loses runes or reports
 invalid encodings, depending on how the reader returns them

---
 iter/gen.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index f2b887d..754d919 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -262,12 +262,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 	// See https://en.wikipedia.org/wiki/UTF-8 for further details
 
 	var (
-		done  = src == nil
-		err   = EOI
-		n, eb int
-		buf   = make([]byte, 3)
-		b     byte
-		r     rune
+		done = src == nil
+		err  = EOI
+		next = nextByte(src)
+		eb   int
+		buf  = make([]byte, 3)
+		b    byte
+		r    rune
 	)
 
 	return func() (rune, error) {
@@ -277,12 +278,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		if b, err = next(); err != nil {
 			done = true
 
-			// Should be a non-nil error if 0 bytes were returned, but don't assume
 			// Translate EOF to EOI
-			if ((n == 0) && (err == nil)) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = EOI
 			}
 
@@ -290,7 +290,6 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// First byte indicates how many more bytes are needed, if any
-		b = buf[0]
 		switch {
 		case (b & 0b1_0000000) == 0b0_0000000:
 			// One byte
@@ -314,13 +313,16 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
-			// Not enough extra bytes exist or some other error
-			if (err == nil) || (err == goio.EOF) {
-				err = InvalidUTF8EncodingError
-			}
+		for i := 0; i < eb; i++ {
+			if buf[i], err = next(); err != nil {
+				// Not enough extra bytes exist or some other error
+				done = true
+				if err == goio.EOF {
+					err = InvalidUTF8EncodingError
+				}
 
-			return 0, err
+				return 0, err
+			}
 		}
 
 		// We have read all required extra bytes
-- 
2.43.0


From d654ffb870e7f076ade4057c6ab85999159368ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 35/82] fix: ReaderAsRunesIterGen accepts overlong encodings
 and surrogates, and continues after an error

---
 iter/gen.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 754d919..94d696f 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -330,6 +330,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -352,11 +353,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 				(rune(buf[1]&0b00_111111) << 6) |
 				(rune(buf[2] & 0b00_111111))
 
-			// Cannot exceed maximum value
-			if r > utf8.MaxRune {
-				err = InvalidUTF8EncodingError
-				return 0, err
-			}
+		}
+
+		// Cannot exceed maximum value, be a surrogate, or be encoded in more bytes than necessary
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
 		}
 
 		// Valid multiple bytes
-- 
2.43.0


From 293bf21256fe4d7f2025a57599c60a2cfe9e9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 36/82] fix: iterating lines joins two lines when an earlier
 line ends with a carriage return

---
 iter/gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iter/gen.go b/iter/gen.go
index 94d696f..d186469 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -423,6 +423,7 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From 97642d68dc4480768ebbeca8e28da54e8fc0aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 37/82] fix: MapIterGen panics if the map contains a nil key or
 value of an interface type

---
 iter/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iter/gen.go b/iter/gen.go
index d186469..275234b 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -67,7 +67,11 @@ func MapIterGen[K comparable, V any](m map[K]V) func() (tuple.Two[K, V], error)
 			return zv, EOI
 		}
 
-		return tuple.Of2(mi.Key().Interface().(K), mi.Value().Interface().(V)), nil
+		// If K or V is an interface type, a nil key or value fails the assertion, and results in the zero value, which is nil
+		k, _ := mi.Key().Interface().(K)
+		v, _ := mi.Value().Interface().(V)
+
+		return tuple.Of2(k, v), nil
 	}
 }
 
-- 
2.43.0


From cc389bd5ca3db49af34a356446384c68fcd4b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 38/82] fix: JSON negative numbers with leading zeros are
 accepted

---
 encoding/json/parse/lex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..3ba034b 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -226,6 +226,7 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		zv          token
 		haveDigit   = val != '-'
 		leadingZero = val == '0'
+		firstDigit  = !haveDigit
 		die         = func() (token, error) {
 			if (err != nil) && (err != iter.EOI) {
 				// A problem
@@ -265,6 +266,10 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 			if leadingZero {
 				return die()
 			}
+
+			// If a leading - has been read, the leading digit is the second char
+			leadingZero = firstDigit && (val == '0')
+			firstDigit = false
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
-- 
2.43.0


From f769681287528083d60d150481cae5c85ccc8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 39/82] fix: JSON strings containing the escape \u0022 end at
 the escape

---
 encoding/json/parse/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 3ba034b..f717fbe 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -199,7 +199,9 @@ func lexString(it iter.Iter[rune]) (token, error) {
                     hexVal = hexValCombined
 				}
 
-				val = hexVal
+				// Same special case as an escaped double quote - the char may be a "
+				str = append(str, hexVal)
+				continue
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
 			}
-- 
2.43.0


From 2aa5c3cd5ea43a04ba767c14b927b3fc13a81520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 40/82] fix: JSON arrays and objects with punctuation in place
 of a value are accepted

---
 encoding/json/parse/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..3c9518e 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -134,6 +134,9 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			// A problem
 			return zv, err // Case 10
 		}
+		if value.Type() == json.Invalid {
+			return zv, fmt.Errorf(errObjectKeyRequiresValueMsg, key.value) // Case 10
+		}
 		object[key.value] = value
 
 		// Expect a comma or closing brace
@@ -202,6 +205,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValueOrBracket // Case 4
+			}
 
 			// Return first value
 			first = false
@@ -233,6 +239,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValue // Case 9
+			}
 
 			return value, nil
 		}
-- 
2.43.0


From d58d1dcc9dbf59a6c049470b90ecdc15770a3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 41/82] fix: JSON objects with a trailing comma are accepted

---
 encoding/json/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 3c9518e..6cba071 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -92,8 +92,8 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			return zv, err // Case 2
 		}
 
-		// If closing brace, valid empty object
-		if key.typ == tCBrace {
+		// If closing brace, valid empty object, unless a comma has been read
+		if (key.typ == tCBrace) && (len(object) == 0) {
 			return json.MapToValue(object)
 		}
 
-- 
2.43.0


From 8b3e041e88e64ed419d770d83ed7e55e657787e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 42/82] fix: JSON documents followed by other content are
 accepted

---
 encoding/json/parse/parse.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 6cba071..94428fb 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -24,6 +24,7 @@ var (
 	errArrayRequiresCommaOrBracket           = fmt.Errorf("A JSON array element must be followed by a comma or closing bracket")
 	errEmptyDocument                         = fmt.Errorf("A JSON document cannot be empty")
 	errObjectOrArrayRequired                 = fmt.Errorf("A JSON document must begin with a brace or bracket")
+	errExtraContent                          = fmt.Errorf("A JSON document cannot be followed by any other content")
 )
 
 // parseValue detects the type of value (object, array, string, number,  boolean, or null).
@@ -255,6 +256,18 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 	})
 }
 
+// endOfDocument returns an error if there is anything left to read after the closing brace or bracket of a document
+func endOfDocument(it iter.Iter[token]) error {
+	if _, err := it.Next(); err == nil {
+		return errExtraContent
+	} else if err != iter.EOI {
+		// A problem
+		return err
+	}
+
+	return nil
+}
+
 // Iterate parses a JSON document into an iter[json.Value].
 // If the document is an object, the object is parsed completely before returning it as an iter of one element.
 // If the document is an array, the array top level elements are parsed as the returnd iter is iterated.
@@ -283,7 +296,9 @@ func Iterate(src io.Reader) iter.Iter[json.Value] {
 		it.Unread(firstTok)
 
 		var val json.Value
-		val, err = parseObject(it)
+		if val, err = parseObject(it); err == nil {
+			err = endOfDocument(it)
+		}
 		if err != nil {
 			// Can't be EOI, we know a token existed before the call
 			return iter.SetError(iter.OfEmpty[json.Value](), err) // Case 3
@@ -295,7 +310,19 @@ func Iterate(src io.Reader) iter.Iter[json.Value] {
 	// If array, return iter of array elements, which are parsed later as the iter is iterated
 	if firstTok.typ == tOBracket {
 		it.Unread(firstTok)
-		return parseArray(it)
+		elements := parseArray(it)
+
+		return iter.OfIter(func() (json.Value, error) {
+			val, err := elements.Next()
+			if err == iter.EOI {
+				// All elements have been returned, there can't be anything else
+				if extraErr := endOfDocument(it); extraErr != nil {
+					err = extraErr
+				}
+			}
+
+			return val, err
+		})
 	}
 
 	// Die if some other token exists that is not a brace or bracket
@@ -333,6 +360,10 @@ func Parse(src io.Reader) (json.Value, error) {
 			return zv, err // Case 3
 		}
 
+		if err = endOfDocument(it); err != nil {
+			return zv, err
+		}
+
 		return doc, nil
 	}
 
-- 
2.43.0


From 4d92a9a4a975d0685755ddbe1a180c647bc8dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 43/82] fix: NumberString values that only contain a number
 somewhere are accepted as JSON numbers

---
 encoding/json/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..d1460e7 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$")
 
 // Error constants
 var (
-- 
2.43.0


From 5ea42d4e29930c3750d7098c24ee0fd715cab2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 44/82] fix: infinities and NaN are accepted as JSON numbers

---
 encoding/json/value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index d1460e7..0f87beb 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -228,7 +228,8 @@ func numberToValue(val any) (nval Value, err error) {
 		}
 
 		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A float could be an infinity or NaN, which JSON does not have
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From 5f93ac42c1f06b523f6a8bb8214d7d7fd9c38504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 45/82] fix: ToValue rejects map[string]Value and []Value

---
 encoding/json/value.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 0f87beb..da28259 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -86,6 +86,11 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+	} else if mp, isa := val.(map[string]Value); isa {
+		if res, err = MapToValue(mp); err != nil {
+			return
+		}
+
 		// Array
 	} else if arr, isa := val.([]any); isa {
 		// recursive call
@@ -93,6 +98,11 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+	} else if arr, isa := val.([]Value); isa {
+		if res, err = SliceToValue(arr); err != nil {
+			return
+		}
+
 		// Boolean
 	} else if bln, isa := val.(bool); isa {
 		res = BoolToValue(bln)
-- 
2.43.0


From 0794f74cddc0b2af66ecb5915fa1f6d98f832a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 46/82] fix: MapToValue and SliceToValue panic on subtypes of
 string

---
 encoding/json/value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index da28259..440aad9 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -119,8 +119,11 @@ func toValue(val any) (res Value, err error) {
 		if typ.Kind() == goreflect.String {
 			if typ.AssignableTo(goreflect.TypeOf(NumberString(""))) {
 				res, err = numberToValue(val.(NumberString))
+			} else if str, isa := val.(string); isa {
+				res = StringToValue(str)
 			} else {
-				res = StringToValue(val.(string))
+				// Some other subtype of string
+				err = fmt.Errorf(errInvalidGoValueMsg, val)
 			}
 
 			return
-- 
2.43.0


From e10ce01b7ffb4aea6456be1781e8a414812b7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 47/82] fix: JSON strings and keys containing double quotes,
 backslashes, or control characters are written as invalid JSON

---
 encoding/json/write/write.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..1af9536 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -3,11 +3,38 @@ package write
 // SPDX-License-Identifier: Apache-2.0
 
 import (
+	"fmt"
+
 	"github.com/bantling/micro/encoding/json"
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/io/writer"
 )
 
+// quote appends a string to data in double quotes.
+// Double quotes, backslashes, and ASCII control characters cannot be in a JSON string as is, and are escaped.
+func quote(data []rune, str string) []rune {
+	data = append(data, '"')
+
+	for _, char := range str {
+		switch {
+		case (char == '"') || (char == '\\'):
+			data = append(data, '\\', char)
+		case char == '\n':
+			data = append(data, '\\', 'n')
+		case char == '\r':
+			data = append(data, '\\', 'r')
+		case char == '\t':
+			data = append(data, '\\', 't')
+		case char < ' ':
+			data = append(data, []rune(fmt.Sprintf("\\u%04x", char))...)
+		default:
+			data = append(data, char)
+		}
+	}
+
+	return append(data, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +43,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(quote(nil, jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +73,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(quote(data, k), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0


From fc41ef7f7857921a83f815e370bc03d39b8c53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 48/82] fix: ExpandMaps panics if a map contains a nil key or
 value of an interface type

---
 stream/stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..96dfa05 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -589,9 +589,11 @@ func ExpandMaps[K comparable, V any](it iter.Iter[map[K]V]) iter.Iter[tuple.Two[
 			}
 		}
 
-		val := tuple.Of2(mr.Key().Interface().(K), mr.Value().Interface().(V))
+		// If K or V is an interface type, a nil key or value fails the assertion, and results in the zero value, which is nil
+		k, _ := mr.Key().Interface().(K)
+		v, _ := mr.Value().Interface().(V)
 
-		return val, nil
+		return tuple.Of2(k, v), nil
 	})
 }
 
-- 
2.43.0


From b0b910a1221ad844d2059269d7ba9766d47ad86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 49/82] fix: AbsBigOps modifies the source elements

---
 stream/stream.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index 96dfa05..59af2fd 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -5,6 +5,7 @@ package stream
 import (
 	"fmt"
 	gomath "math"
+	"math/big"
 	"math/bits"
 	"reflect"
 	"sync"
@@ -900,10 +901,24 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 	})(it)
 }
 
+// newBigOps returns a new zero value. A *big.Float has a precision of zero, so that the first operation that sets it uses
+// the largest precision of the operands.
+func newBigOps[T constraint.BigOps[T]]() T {
+	var val T
+	conv.ToBigOps(0, &val)
+
+	if bf, isa := any(val).(*big.Float); isa {
+		bf.SetPrec(0)
+	}
+
+	return val
+}
+
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
-		return v.Abs(v)
+		// The source elements must not change
+		return newBigOps[T]().Abs(v)
 	})(it)
 }
 
-- 
2.43.0


From ab4422a3e25bbcbaf27d8d5cf97ac54b9047351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 50/82] fix: SumBigOps rounds *big.Float sums to four bits

---
 stream/stream.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 59af2fd..487e1bb 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1102,12 +1102,9 @@ func Sum[T constraint.IntegerAndFloat](it iter.Iter[T]) iter.Iter[T] {
 
 // SumBigOps is the *big.Int, *big.Float, *big.Rat specialization of Sum
 func SumBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
-	var sum T
-	conv.ToBigOps(0, &sum)
-
 	return Reduce(
 		func(a, b T) T {
-			return sum.Add(a, b)
+			return newBigOps[T]().Add(a, b)
 		},
 	)(it)
 }
-- 
2.43.0


From 119e35441bf91834779de48b792a50fffa9792f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 51/82] fix: AvgBigOps rounds *big.Float sums and counts to
 four bits

---
 stream/stream.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 487e1bb..f22157d 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1017,31 +1017,29 @@ func AvgBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return iter.OfIter(
 		func() (T, error) {
 			var (
-				sum   T
-				count T
-				one   T
-				val   T
-				avg   T
-				zv    T
-				err   error
+				sum      = newBigOps[T]()
+				avg      = newBigOps[T]()
+				count    int
+				countBig T
+				val      T
+				zv       T
+				err      error
 			)
-			conv.ToBigOps(0, &sum)
-			conv.ToBigOps(0, &count)
-			conv.ToBigOps(1, &one)
 
 			for {
 				if val, err = it.Next(); err == nil {
 					// Sum all values and count them
-					sum.Add(sum, val)
-					count.Add(count, one)
+					sum = newBigOps[T]().Add(sum, val)
+					count++
 				} else if err == iter.EOI {
-					if count.Sign() == 0 {
+					if count == 0 {
 						// Empty result
 						return zv, err
 					}
 
 					// Non-empty result - divisor = zero handled above, so Div will never fail
-					math.DivBigOps(sum, count, &avg)
+					conv.ToBigOps(count, &countBig)
+					math.DivBigOps(sum, countBig, &avg)
 					break
 				} else {
 					return zv, err
-- 
2.43.0


From 5712b8084ba3c43619b889da054c5c676211cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 52/82] fix: Generator generates a new function every time,
 even if the iter is the same

---
 stream/stream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream/stream.go b/stream/stream.go
index f22157d..1e92a94 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -715,6 +715,7 @@ func Generator[T, U any](gen func() func(iter.Iter[T]) iter.Iter[U]) func(iter.I
 	return func(it iter.Iter[T]) iter.Iter[U] {
 		if currentIter != it {
 			fn = gen()
+			currentIter = it
 		}
 
 		return fn(it)
-- 
2.43.0


From eabad4b1eed8679ffaf9c59abb7a363398fc2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 53/82] fix: Parallel panics if the types are two different
 interface types

---
 stream/stream.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 1e92a94..0312cf1 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1219,15 +1219,10 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		sliceRanges := generateRanges(numItems, info)
 
 		// Determine a slice to use for the output
-		var (
-			zt     T
-			zu     U
-			output []U
-		)
-		if reflect.TypeOf(zt) == reflect.TypeOf(zu) {
-			// T and U are the same type, modify input slice in place
-			output = any(input).([]U)
-		} else {
+		// If T and U are the same type, modify input slice in place
+		// Compare slice types, as the zero values of two different interface types have the same (nil) type
+		output, sameType := any(input).([]U)
+		if !sameType {
 			// Create a separate output slice
 			output = make([]U, numItems)
 		}
-- 
2.43.0


From 0047a7139de4e8d8c980d9190909c11ad53fdb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 54/82] fix: Parallel panics or returns source items if the
 transforms change the number of items

---
 stream/stream.go | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 0312cf1..db0ba5c 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1191,8 +1191,8 @@ func generateRanges(numItems uint, info []PInfo) [][]uint {
 // If the input has one item, the transforms are performed in the same thread.
 // If the input has two or more items, the above algorithm is used to perform transforms in two or more threads.
 //
-// If types T and U are the same, then a single slice is allocated to contain the input and modified in place to produce
-// the output. Otherwise, two slices are allocated, one for input and one for output.
+// Each thread collects its results into a slice, so the transforms can produce any number of items for each bucket.
+// The results of all buckets are returned in bucket order.
 func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInfo) func(iter.Iter[T]) iter.Iter[U] {
 	return func(source iter.Iter[T]) iter.Iter[U] {
 		// Get values into a slice
@@ -1218,37 +1218,26 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		// At least two items, as required by generateRanges. Get slice ranges.
 		sliceRanges := generateRanges(numItems, info)
 
-		// Determine a slice to use for the output
-		// If T and U are the same type, modify input slice in place
-		// Compare slice types, as the zero values of two different interface types have the same (nil) type
-		output, sameType := any(input).([]U)
-		if !sameType {
-			// Create a separate output slice
-			output = make([]U, numItems)
-		}
-
 		// Create a WaitGroup that can wait for all threads to complete
 		var (
-			wg   sync.WaitGroup
-			errs = make([]error, len(sliceRanges))
+			wg      sync.WaitGroup
+			outputs = make([][]U, len(sliceRanges))
+			errs    = make([]error, len(sliceRanges))
 		)
 
-		// The function to execute in each thread, accepting source and target subslices
-		threadFn := func(threadNum int, in []T, out []U) {
+		// The function to execute in each thread, accepting a source subslice
+		threadFn := func(threadNum int, in []T) {
 			// Decrement number of threads remaining once transforms are complete
 			defer wg.Done()
 
-			// Perform transforms and copy to output
-			_, threadErr := ReduceIntoSlice(out)(transforms(iter.OfSlice(in))).Next()
-
-			// In case an error occurs, populate the appropriate errs slot
-			errs[threadNum] = threadErr
+			// Perform transforms and populate the appropriate outputs slot, or the appropriate errs slot in case an error occurs
+			outputs[threadNum], errs[threadNum] = ReduceToSlice(transforms(iter.OfSlice(in))).Next()
 		}
 
 		// Create the threads, passing a subslice of input to each thread for processing
 		for threadNum, sliceRange := range sliceRanges {
 			wg.Add(1)
-			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]], output[sliceRange[0]:sliceRange[1]])
+			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]])
 		}
 
 		// Wait for threads to complete
@@ -1263,6 +1252,11 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 			}
 		}
 
-		return funcs.Ternary(err == nil, iter.OfSlice(output), iter.SetError(iter.OfEmpty[U](), err))
+		if err != nil {
+			return iter.SetError(iter.OfEmpty[U](), err)
+		}
+
+		// Combine the outputs of all threads in order
+		return ExpandSlices(iter.OfSlice(outputs))
 	}
 }
-- 
2.43.0


From e53cfaf0493850273482b9725970cfdf396c958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 55/82] fix: DivBigOps and Div round *big.Float quotients to 53
 bits when the quotient is nil

---
 math/math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/math.go b/math/math.go
index 0bdb9c9..7e0bff4 100755
--- a/math/math.go
+++ b/math/math.go
@@ -370,7 +370,8 @@ var (
 			// If q (**big.Float) points to nil, then allocate a quotient
 			debf, dvbf, qbfp := de.(*big.Float), dv.(*big.Float), q.(**big.Float)
 			if *qbfp == nil {
-				*qbfp = big.NewFloat(0)
+				// A new value has the precision of the operands
+				*qbfp = new(big.Float)
 			}
 			qbf := *qbfp
 
-- 
2.43.0


From c1a136c7fd3f04cfda1b14fdf591dc507ae96f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 56/82] fix: OrderedTuple2SliceAdd inserts a key smaller than
 all others after the first

---
 funcs/funcs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..00b2e18 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -610,6 +610,7 @@ func MapKeysToSlice[K comparable, V any](mp map[K]V) []K {
 // OrderedTuple2Search searches a []Tuple.Two[K, V] for a Tuple.Two whose K value is the one provided.
 // The result is the index of the largest K that is <= the K provided, and true if it is an exact match.
 // When false is returned, it means if the given K is to be inserted, it needs to be inserted after the returned index.
+// If the K provided is smaller than all K values, the result is 0, false, and it needs to be inserted before index 0.
 //
 // # If the slice is nil or empty, then the result is -1, false
 //
@@ -683,7 +684,11 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
 
 	default:
-		// index of tuple that a new tuple should be inserted after
+		// index of tuple that a new tuple should be inserted after, unless the key is smaller than all other keys
+		if key < (*mp)[index].T {
+			index--
+		}
+
 		// due to pointer used for original slice, we have to start building from an empty slice
 		*mp = append(append(append([]tuple.Two[K, []V]{}, (*mp)[:index+1]...), tuple.Of2(key, []V{value})), (*mp)[index+1:]...)
 	}
-- 
2.43.0


From 473d9aa85887421d35027eb3d3c11e1a3731e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 57/82] fix: OrderedTuple2SliceRemoveKey moves elements of the
 original slice, so sending an event skips and repeats receivers if a receiver
 removes an id

---
 funcs/funcs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 00b2e18..224dd2d 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -697,7 +697,8 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 // OrderedTuple2SliceRemoveKey removes a key from the []Tuple.Two[K, V], if the key exists
 func OrderedTuple2SliceRemoveKey[K constraint.Ordered, V any](mp *[]tuple.Two[K, V], key K) {
 	if index, matches := OrderedTuple2Search(*mp, key); matches {
-		*mp = append((*mp)[:index], (*mp)[index+1:]...)
+		// Populate a new slice, as the original slice may be in the process of being iterated
+		*mp = append(append([]tuple.Two[K, V]{}, (*mp)[:index]...), (*mp)[index+1:]...)
 	}
 }
 
-- 
2.43.0


From b99c95be9166444c37aff3c2222775daba18b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 58/82] fix: SliceFlatten panics if passed a subtype of a one
 dimensional slice

---
 funcs/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 224dd2d..1c085bc 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -113,7 +113,7 @@ func SliceFlatten[T any](value any) []T {
 
 	// If original value is already one dimenion return it by reference
 	if numDims == 1 {
-		return value.([]T)
+		return vslc.Convert(reflect.TypeOf(rslc)).Interface().([]T)
 	}
 
 	// Recursively iterate all dimensions of the given slice, some dimensions might be empty
-- 
2.43.0


From a66115bf434a07e62b0c9eb85b328cc8cbe70c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 59/82] fix: SliceFlatten panics if an element is a nil
 interface

---
 funcs/funcs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 1c085bc..ea5c4d2 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -127,7 +127,9 @@ func SliceFlatten[T any](value any) []T {
 			if val.Kind() == reflect.Slice {
 				f(val)
 			} else {
-				rslc = append(rslc, val.Interface().(T))
+				// If T is an interface, a nil element fails the assertion, and results in the zero value, which is nil
+				elem, _ := val.Interface().(T)
+				rslc = append(rslc, elem)
 			}
 		}
 	}
-- 
2.43.0


From 70ab33e16f4f09212bd887b838456a5dd9a539b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 60/82] fix: SnakeToCamelCase and CamelCaseToSnakeCase panic if
 the string or a word is empty

---
 funcs/funcs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index ea5c4d2..de600ca 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -1375,6 +1375,11 @@ func TryTo(tryFn func(), panicFn func(any), closers ...func()) {
 func SnakeToCamelCase(snake string) string {
 	var sb strings.Builder
 	for _, word := range strings.Split(snake, "_") {
+		// Empty input, or a leading, trailing, or doubled underscore
+		if word == "" {
+			continue
+		}
+
 		sb.WriteString(strings.ToUpper(string(word[0])))
 		sb.WriteString(string(word[1:]))
 	}
@@ -1383,7 +1388,12 @@ func SnakeToCamelCase(snake string) string {
 }
 
 // CamelCaseToSnakeCase converts [cC]amelCase to snake_case
+// If the input is empty, the result is empty
 func CamelCaseToSnakeCase(camel string) string {
+	if camel == "" {
+		return ""
+	}
+
 	var (
 		sb       strings.Builder
 		words    = camelWordsRegexp.FindAllString(strings.ToUpper(string(camel[0]))+camel[1:], -1)
-- 
2.43.0


From 356921e2916de6e6411daa11c3b67ffaca413d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 61/82] fix: CamelCaseToSnakeCase drops digits and non-ASCII
 letters

---
 funcs/funcs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index de600ca..4fe63e7 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -35,8 +35,8 @@ const (
 )
 
 var (
-	// ucaseRegexp is a regexp for uppercase chars
-	camelWordsRegexp = regexp.MustCompile("[A-Z][a-z]*")
+	// camelWordsRegexp is a regexp for words that start with an uppercase char, or the start of the string
+	camelWordsRegexp = regexp.MustCompile(`\p{Lu}[^\p{Lu}]*|^[^\p{Lu}]+`)
 )
 
 // ==== Slices
-- 
2.43.0


From c1f2c604e6fdef168cc7f0c4d4e6d3becd7be6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 62/82] fix: SnakeToCamelCase and CamelCaseToSnakeCase change
 words that start with a non-ASCII letter into invalid strings

---
 funcs/funcs.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 4fe63e7..899885b 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -1380,8 +1381,9 @@ func SnakeToCamelCase(snake string) string {
 			continue
 		}
 
-		sb.WriteString(strings.ToUpper(string(word[0])))
-		sb.WriteString(string(word[1:]))
+		_, size := utf8.DecodeRuneInString(word)
+		sb.WriteString(strings.ToUpper(word[:size]))
+		sb.WriteString(word[size:])
 	}
 
 	return sb.String()
@@ -1396,13 +1398,15 @@ func CamelCaseToSnakeCase(camel string) string {
 
 	var (
 		sb       strings.Builder
-		words    = camelWordsRegexp.FindAllString(strings.ToUpper(string(camel[0]))+camel[1:], -1)
+		_, size  = utf8.DecodeRuneInString(camel)
+		words    = camelWordsRegexp.FindAllString(strings.ToUpper(camel[:size])+camel[size:], -1)
 		lastWord = len(words) - 1
 	)
 
 	for i, word := range words {
-		sb.WriteString(strings.ToLower(string(word[0])))
-		sb.WriteString(word[1:])
+		_, size = utf8.DecodeRuneInString(word)
+		sb.WriteString(strings.ToLower(word[:size]))
+		sb.WriteString(word[size:])
 		if i < lastWord {
 			sb.WriteRune('_')
 		}
-- 
2.43.0


From 279ee347adace2ba0dd0191b9d3cb61e92a6d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 63/82] fix: calling ServeMux.Handle while requests are served
 is a data race

---
 rest/rest.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rest/rest.go b/rest/rest.go
index 060d1c2..c60d60c 100755
--- a/rest/rest.go
+++ b/rest/rest.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"regexp"
+	"sync"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -42,7 +43,11 @@ func (hf HandlerFunc) Serve(w http.ResponseWriter, r *http.Request, urlParts []s
 // A ServeMux handles REST requests by performing pattern matching that considers the method and URL, rather than just
 // the URL alone like the http.ServeMux implementation.
 // The zero value is ready to use.
+// A ServeMux must not be copied after first use.
 type ServeMux struct {
+	// Handle may be called while requests are being served
+	mutex sync.RWMutex
+
 	// [](method, regexp, handler)
 	// A flat structure is used to disambiguate a 404 not found error from a 405 method not allowed error
 	handlers []tuple.Three[string, *regexp.Regexp, Handler]
@@ -74,6 +79,8 @@ func (sm *ServeMux) Handle(method, pattern string, handler Handler) error {
 	}
 
 	// Add method, pattern, and handler triple
+	sm.mutex.Lock()
+	defer sm.mutex.Unlock()
 	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
 
 	return nil
@@ -85,14 +92,19 @@ func (sm *ServeMux) MustHandle(method, pattern string, handler Handler) {
 }
 
 // ServeHTTP is http.Handler interface method
-func (sm ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+func (sm *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	// Get the method and url
 	method, url := r.Method, r.URL.Path
 
+	// Get the triples that exist now, handlers can be added while this request is being served, or by the handler of it
+	sm.mutex.RLock()
+	handlers := sm.handlers
+	sm.mutex.RUnlock()
+
 	// Iterate the method, regexp, and handler triples to find the first method match and regexp url matches, if any
 	var urlMatched bool
 
-	for _, methodPatternHandler := range sm.handlers {
+	for _, methodPatternHandler := range handlers {
 		mMethod, mPattern, mHandler := methodPatternHandler.Values()
 		parts := mPattern.FindStringSubmatch(url)
 
-- 
2.43.0


From c8c908cba2f91fe47af6c8d9ba15f62329b3cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 64/82] fix: OfResultError panics if R is an interface type,
 the value is nil, and the error is not

---
 union/union.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/union.go b/union/union.go
index 8b40b5d..943702b 100755
--- a/union/union.go
+++ b/union/union.go
@@ -176,8 +176,8 @@ func OfError[R any](err error) Result[R] {
 // Panics if the error is non-nil and R is not the zero value
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
-		// R is not comparable
-		if !goreflect.ValueOf(r).IsZero() {
+		// R is not comparable, and may be an interface type whose value is nil
+		if !goreflect.ValueOf(&r).Elem().IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From f122b899236bbe1a6810225fbb20afceb5480bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 65/82] fix: ValueToBaseType does not convert nil pointers

---
 reflect/reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 85043e2..25d1916 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -287,9 +287,10 @@ func ValueToBaseType(val goreflect.Value) goreflect.Value {
 		// If so, then convert the value to the base type
 		return val.Convert(pt)
 	} else if k == goreflect.Ptr {
-		k = val.Elem().Kind()
+		// Use the type, the pointer may be nil
+		k = val.Type().Elem().Kind()
 		pt = kindToType[k]
-		if (pt != nil) && (k.String() != val.Elem().Type().String()) {
+		if (pt != nil) && (k.String() != val.Type().Elem().String()) {
 			return val.Convert(goreflect.PtrTo(pt))
 		}
 	}
-- 
2.43.0


From d651185d9c6a204579ba93317ee3b1a2229dd445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 66/82] fix: TypeAssert panics if the value is a nil interface
 or invalid

---
 reflect/reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 25d1916..d5a2bda 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -241,9 +241,9 @@ func ResolveValueType(val goreflect.Value) goreflect.Value {
 // Unlike Go's type assertion syntax, this function can be called with any kind of value and any type.
 // If desired, an optional message can be provided that is placed at the beginning of the error message, followed by a colon and space.
 func TypeAssert(val goreflect.Value, typ goreflect.Type, msg ...string) error {
-	if rt := ResolveValueType(val).Type(); rt != typ {
+	if rv := ResolveValueType(val); (!rv.IsValid()) || (rv.Type() != typ) {
 		prefix := funcs.SliceIndex(msg, 0)
-		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), val.Type(), rt, typ)
+		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), TypeOf(val), TypeOf(rv), typ)
 	}
 
 	return nil
-- 
2.43.0


From 924b5a5dab18066e0c9371e5a0b8b24f213b1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 67/82] fix: reflective access to a Maybe panics if an inner
 pointer is nil or the value to set has another type

---
 union/reflect/reflect.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 0d0e0ec..5e6ca4d 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -18,6 +18,7 @@ var (
 	errGetMaybeValueEmptyMsg         = "Cannot get the Maybe value of an empty %s"
 	errSetMaybeValueUnsafeMsg        = "Cannot set the Maybe value of type %s"
 	errSetMaybeValueUnaddressableMsg = "Cannot set the Maybe value of type %s as it is not a pointer and not addressable"
+	errSetMaybeValueTypeMsg          = "Cannot set the Maybe value of type %s to a value of type %s"
 )
 
 // GetMaybeType gets the generic type of the value wrapped in a union.Maybe (which may have pointers to it).
@@ -36,11 +37,11 @@ func GetMaybeType(typ goreflect.Type) goreflect.Type {
 // safeMaybeAccess returns true if the given reflect.Value can safely be accessed as a Maybe value, which is true if:
 // - The reflect.Value is valid
 // - GetMaybeType(val.Type()) returns a non-nil reflect.Type
-// - The reflect.Value is a non-nil pointer or a value
+// - The reflect.Value is a value, or one or more pointers that are all non-nil
 func safeMaybeAccess(val goreflect.Value) bool {
 	return val.IsValid() &&
 		(GetMaybeType(val.Type()) != nil) &&
-		((val.Kind() != goreflect.Pointer) || !val.IsNil())
+		reflect.DerefValue(val).IsValid()
 }
 
 // MaybeValueIsPresent indicates if the given reflect.Value wraps a present Maybe. which is true if:
@@ -76,6 +77,10 @@ func SetMaybeValue(dst, val goreflect.Value) error {
 		return fmt.Errorf(errSetMaybeValueUnaddressableMsg, reflect.TypeOf(dst))
 	}
 
+	if (!val.IsValid()) || (!val.Type().AssignableTo(GetMaybeType(dst.Type()))) {
+		return fmt.Errorf(errSetMaybeValueTypeMsg, reflect.TypeOf(dst), reflect.TypeOf(val))
+	}
+
 	reflect.DerefValue(dst).Addr().MethodByName("Set").Call([]goreflect.Value{val})
 	return nil
 }
-- 
2.43.0


From fc644df80e12e0c472c21812d727608c9f5d1e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 68/82] fix: BaseGenerator.SetBasePath does not panic if the
 base path is already set

---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 458a9be..4a3bfe7 100755
--- a/code/api.go
+++ b/code/api.go
@@ -68,7 +68,7 @@ func (bg BaseGenerator) GetBasePath() string {
 // SetBasePath panics if the base path has already been set
 func (bg *BaseGenerator) SetBasePath(bp string) {
 	// Die if base path has already been set
-	bg.basePath.SetOrError(bp)
+	funcs.Must(bg.basePath.SetOrError(bp))
 
 	// Use clean path
 	cleanPath := path.Clean(bp)
-- 
2.43.0


From 83626666d029540a674c3acdc0d69c2389b25ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 69/82] fix: BaseGenerator.Dir always panics, and does not set
 the current dir

---
 code/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 4a3bfe7..f1ecfc9 100755
--- a/code/api.go
+++ b/code/api.go
@@ -115,7 +115,8 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
 
-	bg.dirs[dirPath] = true
+	funcs.MapSet(&bg.dirs, dirPath, true)
+	bg.currentDir = dirPath
 }
 
 // Src panics if the file already exists
-- 
2.43.0


From a2211607c01c2878fc952cad321470d5d01def50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 70/82] fix: BaseGenerator creates dirs that their owner cannot
 access

---
 code/api.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/api.go b/code/api.go
index f1ecfc9..3fb743e 100755
--- a/code/api.go
+++ b/code/api.go
@@ -78,7 +78,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 	if err != nil {
 		if os.IsNotExist(err) {
 			// Doesn't exist is ok, we'll just create all the parts that are missing for it
-			if err = os.MkdirAll(cleanPath, fs.ModeDir); err != nil {
+			if err = os.MkdirAll(cleanPath, fs.ModeDir|fs.ModePerm); err != nil {
 				// Could not create some part
 				panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 			}
@@ -93,7 +93,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 			panic(fmt.Errorf(errBasePathDeleteMsg, cleanPath, err))
 		}
 
-		if err = os.Mkdir(cleanPath, fs.ModeDir); err != nil {
+		if err = os.Mkdir(cleanPath, fs.ModeDir|fs.ModePerm); err != nil {
 			// Could not recreate path
 			panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 		}
@@ -110,7 +110,7 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errDirExistsInBasePathMsg, dirPath, bg.basePath))
 	}
 
-	if err := os.MkdirAll(dirPath, fs.ModeDir); err != nil {
+	if err := os.MkdirAll(dirPath, fs.ModeDir|fs.ModePerm); err != nil {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
-- 
2.43.0


From 637dea4b32cb4e0d399de5088bc26409d291a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 71/82] fix: BaseGenerator.Src creates files in the root dir of
 the system if there is no current dir

---
 code/api.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/api.go b/code/api.go
index 3fb743e..a676739 100755
--- a/code/api.go
+++ b/code/api.go
@@ -22,6 +22,10 @@ const (
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
 )
 
+var (
+	errNoCurrentDir = fmt.Errorf("There is no current dir")
+)
+
 // Generator is the interface describing an easy to use fluent API for generating packages of code.
 // If anything goes wrong, the generator panics.
 type Generator interface {
@@ -126,6 +130,11 @@ func (bg *BaseGenerator) Src(name string) {
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, error(nil)))
 	}
 
+	if bg.currentDir == "" {
+		// Die if there is no current dir
+		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, errNoCurrentDir))
+	}
+
 	path := bg.currentDir + "/" + name
 	f, err := os.Create(path)
 	if err != nil {
-- 
2.43.0


From f9b78b8d463f38228a78a0ac344c2fbcb6e8103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 72/82] fix: BaseGenerator.Dir creates missing parent dirs
 instead of panicking

---
 code/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/api.go b/code/api.go
index a676739..64617a5 100755
--- a/code/api.go
+++ b/code/api.go
@@ -19,6 +19,7 @@ const (
 	errBasePathDeleteMsg      = "The base path %s could not be deleted: %s"
 	errDirExistsInBasePathMsg = "The dir %s already exists in base path %s"
 	errCreateDirInBasePathMsg = "The dir %s could not be created in base path %s: it already exists"
+	errParentDirMsg           = "The parent of the dir %s could not be read: %s"
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
 )
 
@@ -114,6 +115,11 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errDirExistsInBasePathMsg, dirPath, bg.basePath))
 	}
 
+	// Die if parent dir does not exist
+	if _, err := os.Stat(path.Dir(dirPath)); err != nil {
+		panic(fmt.Errorf(errParentDirMsg, dirPath, err))
+	}
+
 	if err := os.MkdirAll(dirPath, fs.ModeDir|fs.ModePerm); err != nil {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
-- 
2.43.0


From 6a9b46551e0237c9885dfbdc7ec175f6fa2af01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 73/82] fix: BaseGenerator.Src truncates a file that already
 exists, if it is named differently

---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 64617a5..cb5cfea 100755
--- a/code/api.go
+++ b/code/api.go
@@ -142,7 +142,7 @@ func (bg *BaseGenerator) Src(name string) {
 	}
 
 	path := bg.currentDir + "/" + name
-	f, err := os.Create(path)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		// Could not create src file under dir
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, err))
-- 
2.43.0


From 42f8e943b70e70c1e79f9d2d353be9356ee64a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 74/82] fix: conv.ReflectTo panicked on a pointer to a type
 that prints like a big type

---
 conv/conv.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 5232b08..9fd3159 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1210,9 +1210,14 @@ func ReflectTo(i, o goreflect.Value) error {
 	// Convert output to a base type
 	ob := reflect.ValueToBaseType(o)
 
-	// Locate a conversion function in convertFromTo map
-	convFn := convertFromTo[(ityp.String() + ob.Type().Elem().String())]
-	if convFn == nil {
+	// Locate a conversion function in convertFromTo map.
+	// The only pointers in the map are *big.Int, *big.Float, and *big.Rat. The keys of the map do not tell them apart from
+	// pointers to types of the same names in some other package named big, which cannot be converted.
+	obtyp := ob.Type().Elem()
+	convFn := convertFromTo[(ityp.String() + obtyp.String())]
+	if (convFn == nil) ||
+		((ityp.Kind() == goreflect.Pointer) && !reflect.IsBigPtr(ityp)) ||
+		((obtyp.Kind() == goreflect.Pointer) && !reflect.IsBigPtr(obtyp)) {
 		return fmt.Errorf(errReflectToLookupMsg, ityp, otyp.Elem())
 	}
 
-- 
2.43.0


From d709b788f8ef8eeb470ed20629f4e7ffef5999d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 75/82] fix: the JSON parser overflowed the stack on a document
 nested a million levels deep

---
 encoding/json/parse/lex.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index f717fbe..44ac6d3 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -27,8 +27,13 @@ const (
 	tEOF
 )
 
+// maxDepth is the maximum number of arrays and objects that can be nested inside each other.
+// The parser is recursive, a limit is needed to ensure that no document can overflow the stack.
+const maxDepth = 100_000
+
 // error constants
 var (
+	errMaxDepth                       = fmt.Errorf("A JSON document cannot have arrays and objects nested more than %d levels deep", maxDepth)
 	errIncompleteStringMsg            = "Incomplete string %s: a string must be terminated by a \""
 	errControlCharInStringMsg         = "The ascii control character 0x%02x is not valid in a string"
 	errIncompleteStringEscapeMsg      = "Incomplete string escape in %s"
@@ -470,8 +475,25 @@ func lex(it iter.Iter[rune]) (token, error) {
 }
 
 // lexer uses lex and converts an iter[rune] into an iter[token]
+// If arrays and objects are nested more than maxDepth levels deep, an error is returned
 func lexer(it iter.Iter[rune]) iter.Iter[token] {
+	depth := 0
+
 	return iter.OfIter(func() (token, error) {
-		return lex(it)
+		tok, err := lex(it)
+		if err != nil {
+			return tok, err
+		}
+
+		switch tok.typ {
+		case tOBracket, tOBrace:
+			if depth++; depth > maxDepth {
+				return token{}, errMaxDepth
+			}
+		case tCBracket, tCBrace:
+			depth--
+		}
+
+		return tok, nil
 	})
 }
-- 
2.43.0


From 23732176a43ea23b7224811fac1b6ca4250e7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:53 +0000
Subject: [PATCH 76/82] fix: conv.ReflectTo failed for a source of a named
 type, and for a source and target of the same type

---
 conv/conv.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 9fd3159..b3dd7d8 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1207,21 +1207,34 @@ func ReflectTo(i, o goreflect.Value) error {
 		return fmt.Errorf(errReflectToTgtBigTypeMsg, o.Interface())
 	}
 
-	// Convert output to a base type
-	ob := reflect.ValueToBaseType(o)
+	// Convert input and output to base types
+	ib, ob := reflect.ValueToBaseType(i), reflect.ValueToBaseType(o)
+	ibtyp, obtyp := ib.Type(), ob.Type().Elem()
+
+	// If the types are the same, then a simple copy will suffice
+	if ibtyp == obtyp {
+		if reflect.IsPrimitive(ibtyp) || (reflect.IsBigPtr(ibtyp) && ib.IsNil()) {
+			ob.Elem().Set(ib)
+			return nil
+		} else if reflect.IsBigPtr(ibtyp) {
+			// Copy big types into a new pointer, so that the copy can be modified without affecting the original
+			ob.Elem().Set(goreflect.New(obtyp.Elem()))
+			copyBig(ib.Interface(), ob.Elem().Interface())
+			return nil
+		}
+	}
 
 	// Locate a conversion function in convertFromTo map.
 	// The only pointers in the map are *big.Int, *big.Float, and *big.Rat. The keys of the map do not tell them apart from
 	// pointers to types of the same names in some other package named big, which cannot be converted.
-	obtyp := ob.Type().Elem()
-	convFn := convertFromTo[(ityp.String() + obtyp.String())]
+	convFn := convertFromTo[(ibtyp.String() + obtyp.String())]
 	if (convFn == nil) ||
 		((ityp.Kind() == goreflect.Pointer) && !reflect.IsBigPtr(ityp)) ||
 		((obtyp.Kind() == goreflect.Pointer) && !reflect.IsBigPtr(obtyp)) {
 		return fmt.Errorf(errReflectToLookupMsg, ityp, otyp.Elem())
 	}
 
-	return convFn(i.Interface(), ob.Interface())
+	return convFn(ib.Interface(), ob.Interface())
 }
 
 // MustReflectTo is a Must version of ReflectTo
-- 
2.43.0


From aeb6253190014091d0ea18642b96c90937f8c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 77/82] fix: reflect.ValueToBaseType panicked on a value of a
 named pointer type

---
 reflect/reflect.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index d5a2bda..92f4ba9 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -288,10 +288,12 @@ func ValueToBaseType(val goreflect.Value) goreflect.Value {
 		return val.Convert(pt)
 	} else if k == goreflect.Ptr {
 		// Use the type, the pointer may be nil
-		k = val.Type().Elem().Kind()
+		et := val.Type().Elem()
+		k = et.Kind()
 		pt = kindToType[k]
-		if (pt != nil) && (k.String() != val.Type().Elem().String()) {
-			return val.Convert(goreflect.PtrTo(pt))
+		if (pt != nil) && (val.Type() != goreflect.PtrTo(pt)) {
+			// Go only converts between pointer types of different element types if they have no name
+			return val.Convert(goreflect.PtrTo(et)).Convert(goreflect.PtrTo(pt))
 		}
 	}
 
-- 
2.43.0


From 9cbb5fe2a1f5e532c4f48193d00ce23158316995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 78/82] fix: reflective access to a Maybe panicked on a named
 pointer type, which has no methods

---
 union/reflect/reflect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 5e6ca4d..3568673 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -47,9 +47,9 @@ func safeMaybeAccess(val goreflect.Value) bool {
 // MaybeValueIsPresent indicates if the given reflect.Value wraps a present Maybe. which is true if:
 // - The reflect.Value is valid
 // - GetMaybeType(val.Type()) returns a non-nil reflect.Type
-// - derefing the reflect.Value to at most one pointer and calling the Present method returns true
+// - derefing the reflect.Value and calling the Present method returns true
 func MaybeValueIsPresent(val goreflect.Value) bool {
-	return safeMaybeAccess(val) && reflect.DerefValueMaxOnePtr(val).MethodByName("Present").Call(nil)[0].Bool()
+	return safeMaybeAccess(val) && reflect.DerefValue(val).MethodByName("Present").Call(nil)[0].Bool()
 }
 
 // GetMaybeValue gets the value of a Maybe, returning reflect.Value of present value.
@@ -63,7 +63,7 @@ func GetMaybeValue(val goreflect.Value) goreflect.Value {
 		return goreflect.Value{}
 	}
 
-	return reflect.DerefValueMaxOnePtr(val).MethodByName("Get").Call(nil)[0]
+	return reflect.DerefValue(val).MethodByName("Get").Call(nil)[0]
 }
 
 // SetMaybeValue copies the value of val into dst.
-- 
2.43.0


From 8968bf180d4d6992b3a967ef711375f4a13692ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 79/82] fix: BaseGenerator.Dir did not panic if the dir exists
 but was created by something else

---
 code/api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index cb5cfea..dd3739d 100755
--- a/code/api.go
+++ b/code/api.go
@@ -120,7 +120,9 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errParentDirMsg, dirPath, err))
 	}
 
-	if err := os.MkdirAll(dirPath, fs.ModeDir|fs.ModePerm); err != nil {
+	// The dir may also exist without having been created by this generator, only the base path is expected to exist
+	err := os.Mkdir(dirPath, fs.ModeDir|fs.ModePerm)
+	if (err != nil) && !(os.IsExist(err) && (dirPath == path.Clean(bg.basePath.Get()))) {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
-- 
2.43.0


From 83c3438f79000d058dc683c09a513b47f7b5b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 80/82] fix: FloatToString gave a subtype of float32 the digits
 of a float64

---
 conv/string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conv/string.go b/conv/string.go
index 3b2bdfa..6518980 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -5,6 +5,7 @@ package conv
 import (
 	"math"
 	"math/big"
+	goreflect "reflect"
 	"strconv"
 
 	"github.com/bantling/micro/constraint"
@@ -23,7 +24,8 @@ func UintToString[T constraint.UnsignedInteger](val T) string {
 
 // FloatToString converts any float type into a string
 func FloatToString[T constraint.Float](val T) string {
-	_, is32 := any(val).(float32)
+	// The type may be a subtype of float32
+	is32 := goreflect.TypeOf(val).Kind() == goreflect.Float32
 	return strconv.FormatFloat(float64(val), 'f', -1, funcs.Ternary(is32, 32, 64))
 }
 
-- 
2.43.0


From 1ef55842436991f7b04551e85510ecca8ab76ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 81/82] fix: StringToBigRat took a leading zero of the parts of
 a ratio for an octal prefix

---
 conv/bigrat.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index b3636f0..2d5d258 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strings"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -61,6 +62,16 @@ func MustBigFloatToBigRat(ival *big.Float, oval **big.Rat) {
 
 // StringToBigRat converts a string into a *big.Rat
 func StringToBigRat(ival string, oval **big.Rat) error {
+	// SetString considers a leading zero of either part of a ratio to be an octal prefix, although it is not one of an integer
+	if dividend, divisor, isRatio := strings.Cut(ival, "/"); isRatio {
+		num, numOk := big.NewInt(0).SetString(dividend, 10)
+		denom, denomOk := big.NewInt(0).SetString(divisor, 10)
+		if numOk && denomOk && (denom.Sign() > 0) && (divisor[0] != '+') {
+			*oval = big.NewRat(1, 1).SetFrac(num, denom)
+			return nil
+		}
+	}
+
 	var ok bool
 	if *oval, ok = big.NewRat(1, 1).SetString(ival); !ok {
 		return fmt.Errorf(errMsg, ival, ival, "*big.Rat")
-- 
2.43.0


From 734bfdcbba5201eb9ade3c1ba0abe901ac842a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:55 +0000
Subject: [PATCH 82/82] fix: ResolveValueType panicked for an interface in an
 unexported field

---
 reflect/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 92f4ba9..e30eac2 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -230,7 +230,7 @@ func ResolveValueType(val goreflect.Value) goreflect.Value {
 	// Check special case
 	if val.IsValid() && (val.Kind() == goreflect.Interface) {
 		// Return a new wrapper that is typed according to actual value type
-		return goreflect.ValueOf(val.Interface())
+		return val.Elem()
 	}
 
 	return val
-- 
2.43.0

