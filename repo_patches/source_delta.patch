From bff8a9e316a5a6ceddef5515aa1511f13086fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 01/67] fix: byte iteration of a reader honours short reads,
 errors returned along with data, and repeats its error

A Read of (0, nil) returned the previous byte again, (1, EOF) dropped the last byte,
and a call after an error returned EOI instead of the same error.
---
 iter/gen.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..dd05794 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -173,6 +173,35 @@ func FibonnaciIterGen() func() (int, error) {
 	)
 }
 
+// fullReader adapts an io.Reader so that each Read fills the whole slice unless no more bytes are available:
+// - short reads, including (0, nil), are retried, they do not indicate the end of the data
+// - an error returned along with the last bytes needed is remembered, and returned by the next Read
+type fullReader struct {
+	src goio.Reader
+	err error
+}
+
+// Read is the io.Reader method
+func (r *fullReader) Read(p []byte) (n int, err error) {
+	for noProgress := 0; (n < len(p)) && (r.err == nil); {
+		var num int
+		num, r.err = r.src.Read(p[n:])
+		n += num
+
+		if noProgress++; num > 0 {
+			noProgress = 0
+		} else if (noProgress == 100) && (r.err == nil) {
+			r.err = goio.ErrNoProgress
+		}
+	}
+
+	if n < len(p) {
+		err = r.err
+	}
+
+	return n, err
+}
+
 // ReaderIterGen generates an iterating function that iterates all the bytes of an io.Reader.
 // If the reader returns an EOF, it is translated to an EOI, any other error is returned as is.
 // If the iter is called again after returning a non-nil error, it returns (0, same error).
@@ -182,6 +211,7 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 		done = src == nil
 		err  = EOI
 		buf  = make([]byte, 1)
+		rdr  = &fullReader{src: src}
 	)
 
 	return func() (byte, error) {
@@ -189,12 +219,14 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		if _, rerr := rdr.Read(buf); rerr != nil {
 			done = true
+			err = rerr
 			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
+						return 0, err
 					}
 				}
 			}
-- 
2.43.0


From 18b76b01e3a07852c5855ed438c07027ebc9a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 02/67] fix: rune iteration of a reader honours short reads,
 errors returned along with data, and repeats its error

A short read in the middle of a multi byte rune was reported as invalid UTF-8, (1, EOF) dropped the last rune,
(0, nil) ended the iteration, and iteration went on after an error in the middle of a rune.
---
 iter/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index dd05794..bfcd1f7 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -270,6 +270,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		buf   = make([]byte, 3)
 		b     byte
 		r     rune
+		rdr   = &fullReader{src: src}
 	)
 
 	return func() (rune, error) {
@@ -279,7 +280,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		if n, err = rdr.Read(buf[0:1]); (n == 0) || (err != nil) {
 			done = true
 
 			// Should be a non-nil error if 0 bytes were returned, but don't assume
@@ -316,8 +317,9 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
+		if n, err = rdr.Read(buf[0:eb]); (n != eb) || (err != nil) {
 			// Not enough extra bytes exist or some other error
+			done = true
 			if (err == nil) || (err == goio.EOF) {
 				err = InvalidUTF8EncodingError
 			}
@@ -330,6 +332,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -354,6 +357,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 			// Cannot exceed maximum value
 			if r > utf8.MaxRune {
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
-- 
2.43.0


From fd63ac8017e0955c16b3456557c77d1516739657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 03/67] fix: rune iteration of a reader rejects overlong
 encodings and surrogates

---
 iter/gen.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iter/gen.go b/iter/gen.go
index bfcd1f7..a6dad7e 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -363,6 +363,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 			}
 		}
 
+		// Must be a valid code point (not a surrogate) that is encoded with the least number of bytes
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
+		}
+
 		// Valid multiple bytes
 		return r, nil
 	}
-- 
2.43.0


From cda0642a12d21ca96c82c0820b1ffbc89a5ab068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 04/67] fix: line iteration does not swallow an LF after a CR
 when there are characters between them

---
 iter/gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iter/gen.go b/iter/gen.go
index a6dad7e..3f5b4e4 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -431,6 +431,7 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From 98208b85cf7c5d62dfabb9f917b441c72112cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 05/67] fix: map iteration does not panic on nil keys or values
 of an interface type

---
 iter/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iter/gen.go b/iter/gen.go
index 3f5b4e4..cdf009c 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -67,7 +67,10 @@ func MapIterGen[K comparable, V any](m map[K]V) func() (tuple.Two[K, V], error)
 			return zv, EOI
 		}
 
-		return tuple.Of2(mi.Key().Interface().(K), mi.Value().Interface().(V)), nil
+		// A nil value of an interface type cannot be asserted, it is the zero value
+		k, _ := mi.Key().Interface().(K)
+		v, _ := mi.Value().Interface().(V)
+		return tuple.Of2(k, v), nil
 	}
 }
 
-- 
2.43.0


From 68bafc1fb2b16113f68e129dcb8a35194ab8bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 06/67] fix: ErrorReader does not read past its input when more
 bytes than remain are asked for

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From fc3cad2bd7387326f46a167a5a27a17dd0d57e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 07/67] fix: rounding an integer quotient between -1 and 0 goes
 towards -1, not towards 1

---
 math/math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..b383c3b 100755
--- a/math/math.go
+++ b/math/math.go
@@ -29,7 +29,8 @@ func divSInt(de, dv int64, q *int64) {
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		// The sign of the quotient cannot tell, it is zero if abs(dividend) < abs(divisor)
+		if (de < 0) == (dv < 0) {
 			*q++
 		} else {
 			*q--
-- 
2.43.0


From f092843c66482cef404a7670af9bfa0962623f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 08/67] fix: rounding a *big.Int quotient between -1 and 0 goes
 towards -1, and the quotient may be the divisor

---
 math/math.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/math/math.go b/math/math.go
index b383c3b..56671cc 100755
--- a/math/math.go
+++ b/math/math.go
@@ -315,6 +315,11 @@ var (
 				return DivByZeroErr
 			}
 
+			// The sign of the quotient cannot tell, it is zero if abs(dividend) < abs(divisor)
+			// The quotient may be the same pointer as the dividend or the divisor
+			positive := debi.Sign() == dvbi.Sign()
+			dvbi = big.NewInt(0).Set(dvbi)
+
 			r := big.NewInt(0)
 			qbi.QuoRem(debi, dvbi, r)
 			r.Abs(r)
@@ -326,7 +331,7 @@ var (
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
+				if positive {
 					qbi.Add(qbi, big.NewInt(1))
 				} else {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From 6229c946d91de64e9c6e125ec02f199e4f7be7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 09/67] fix: dividing the smallest integer of a type by -1 is
 an overflow error

---
 math/math.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/math/math.go b/math/math.go
index 56671cc..5407468 100755
--- a/math/math.go
+++ b/math/math.go
@@ -159,6 +159,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int) == math.MinInt) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int)
 			qi64 := int64(*qi)
@@ -173,6 +176,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int8) == math.MinInt8) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int8)
 			qi64 := int64(*qi)
@@ -187,6 +193,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int16) == math.MinInt16) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int16)
 			qi64 := int64(*qi)
@@ -201,6 +210,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int32) == math.MinInt32) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int32)
 			qi64 := int64(*qi)
@@ -215,6 +227,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int64) == math.MinInt64) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int64)
 			divSInt(de.(int64), dvi, qi)
-- 
2.43.0


From 24ec6a4d7820490f24398a041b5963ef6c5182ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 10/67] fix: subtracting the smallest integer of a type reports
 overflow exactly when it occurs

---
 math/math.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index 5407468..d501529 100755
--- a/math/math.go
+++ b/math/math.go
@@ -474,10 +474,23 @@ func CmpComplex[T constraint.Complex](val1, val2 T) (res int) {
 // SubInt subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if over/underflow occurs.
 // See AddInt.
 func SubInt[T constraint.SignedInteger](me T, sed *T) error {
-	// Instead of actually subtracting, just add the additive inverse
-	*sed = -*sed
+	// Cannot just add the additive inverse, the smallest value of the type has none
+	sign1, sign2 := me >= 0, *sed >= 0
+	*sed = me - *sed
+	newSign := *sed >= 0
+
+	if (sign1 != sign2) && (sign1 != newSign) {
+		// Different signs subtracted, sign of result differs from the minuend
+		if sign1 {
+			// Positive wrapped around to negative
+			return OverflowErr
+		}
 
-	return AddInt(me, sed)
+		// Negative wrapped around to positive
+		return UnderflowErr
+	}
+
+	return nil
 }
 
 // SubUint subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if underflow occurs.
-- 
2.43.0


From 7b6cbeeb0d1eb54b27b7e1054e38130cba438eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 11/67] fix: Abs and Div accept subtypes of the integer and
 float types, as their constraint does

---
 math/math.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/math/math.go b/math/math.go
index d501529..ebccec2 100755
--- a/math/math.go
+++ b/math/math.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/conv"
+	ureflect "github.com/bantling/micro/reflect"
 )
 
 // Signed integer division, for toDiv map above
@@ -398,14 +399,16 @@ var (
 // In this special case, an error is returned, otherwise nil is returned.
 // Note that while the constraint allows unsigned ints for completeness, no operation is performed.
 func Abs[T constraint.Numeric](val *T) error {
-	typval := reflect.TypeOf(val).Elem().String()
+	// If T is a subtype, convert the pointer to the base type, so that an abs function can be found
+	base := ureflect.ValueToBaseType(reflect.ValueOf(val))
+	typval := base.Type().Elem().String()
 
 	// No need to calculate absolute value of an unsigned int
 	if strings.HasPrefix(typval, "uint") {
 		return nil
 	}
 
-	return toAbs[typval](val)
+	return toAbs[typval](base.Interface())
 }
 
 // AddInt adds two signed integers overwriting the second value, and returns an error if over/underflow occurs.
@@ -539,8 +542,13 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
 func Div[T constraint.Numeric](dividend T, divisor T, quotient *T) error {
 	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
-	return toDiv[typ](ade, adv, aq)
+	// If T is a subtype, convert the args to the base type, so that a div function can be found
+	var (
+		ade = ureflect.ValueToBaseType(reflect.ValueOf(dividend)).Interface()
+		adv = ureflect.ValueToBaseType(reflect.ValueOf(divisor)).Interface()
+		aq  = ureflect.ValueToBaseType(reflect.ValueOf(quotient)).Interface()
+	)
+	return toDiv[reflect.TypeOf(ade).String()](ade, adv, aq)
 }
 
 // DivBigOps is the BigOps version of Div
-- 
2.43.0


From 3c1c810d5f70862155152365e7897206f1858a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 12/67] fix: constructing a range panics if the initial value
 is outside of it, as documented

---
 math/range.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/math/range.go b/math/range.go
index 6b8eee4..916e033 100755
--- a/math/range.go
+++ b/math/range.go
@@ -53,7 +53,12 @@ func OfRange[T constraint.IntegerAndFloat](
 		panic(fmt.Errorf(errMinMaxMsg, minStr, maxStr))
 	}
 
-	return Range[T]{min, minMode, max, maxMode, initial}
+	rng := Range[T]{min, minMode, max, maxMode, initial}
+	if err := rng.SetValue(initial); err != nil {
+		panic(err)
+	}
+
+	return rng
 }
 
 // GetMin returns the minimum value and mode
-- 
2.43.0


From c8280b1288a9de533f65ed1835946116ab1dd897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 13/67] fix: converting floats to *big.Rat and integer types is
 exact, they were cut to 10 digits

---
 conv/bigrat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 6a997c8..f2d7adb 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -49,7 +49,8 @@ func BigFloatToBigRat(ival *big.Float, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Rat")
 	}
 
-	*oval, _ = big.NewRat(1, 1).SetString(BigFloatToString(ival))
+	// The conversion is exact, a string would only contain some of the digits
+	*oval, _ = ival.Rat(nil)
 	return nil
 }
 
-- 
2.43.0


From 6980d6b23faab45fe00597aef33e842b8e46738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 14/67] fix: converting a small *big.Rat to a *big.Float does
 not cut it to 53 decimal places

---
 conv/bigfloat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 709b853..126aa67 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -48,7 +48,7 @@ func BigIntToBigFloat(ival *big.Int, oval **big.Float) {
 func BigRatToBigFloat(ival *big.Rat, oval **big.Float) {
 	// Use numerator to calculate the precision, shd be accurate since denominator is basically the exponent
 	prec := int(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
-	*oval, _, _ = big.ParseFloat(ival.FloatString(prec), 10, uint(prec), big.ToNearestEven)
+	*oval = big.NewFloat(0).SetPrec(uint(prec)).SetRat(ival)
 
 	// Set accuracy to exact
 	(*oval).SetMode((*oval).Mode())
-- 
2.43.0


From 0cdab40db2a16d5f0dc1edc737eed7fb9efed9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 15/67] fix: converting a *big.Rat to a *big.Int does not share
 the numerator of the *big.Rat

---
 conv/bigint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..8e21bd1 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Num returns a reference to the numerator, the *big.Int must not share it
+	*oval = big.NewInt(0).Set(ival.Num())
 	return nil
 }
 
-- 
2.43.0


From 58affa04abcf488123057d6944440da925b1e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 16/67] fix: copies of big values do not share memory with the
 original

---
 conv/conv.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..3e2ba5c 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1009,6 +1009,19 @@ var (
 	}
 )
 
+// copyBig copies the value of a big type to another non-nil pointer of the same type.
+// A copy of the struct is not good enough, the copies would share a slice that in place operations modify.
+func copyBig(src, dst any) {
+	switch s := src.(type) {
+	case *big.Int:
+		dst.(*big.Int).Set(s)
+	case *big.Float:
+		dst.(*big.Float).Copy(s)
+	case *big.Rat:
+		dst.(*big.Rat).Set(s)
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1045,7 +1058,7 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				copyBig(ival.Interface(), oval.Elem().Interface())
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1140,7 +1153,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			copyBig(ival.Interface(), oval.Elem().Interface())
 		}
 
 		return nil
-- 
2.43.0


From f96f951803c975b14b861b29c712f2c0dd0d0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 17/67] fix: strings of *big.Float have all the digits that are
 needed to get the same value back, not at most 10

---
 conv/string.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conv/string.go b/conv/string.go
index e6f846d..16538eb 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -33,7 +33,8 @@ func BigIntToString(val *big.Int) string {
 
 // BigFloatToString converts a *big.Float to a string
 func BigFloatToString(val *big.Float) string {
-	return val.String()
+	// The String method only returns 10 digits
+	return val.Text('f', -1)
 }
 
 // BigRatToString converts a *big.Rat to a string.
@@ -51,5 +52,5 @@ func BigRatToNormalizedString(val *big.Rat) string {
 
 	var inter *big.Float
 	BigRatToBigFloat(val, &inter)
-	return inter.String()
+	return BigFloatToString(inter)
 }
-- 
2.43.0


From 8b65184234b8ec0b2a39681dbc5fc1303cf940cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 18/67] fix: AnyTo returns an error for nil instead of
 panicking

---
 conv/conv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conv/conv.go b/conv/conv.go
index 3e2ba5c..9157a54 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1081,6 +1081,10 @@ func MustTo[I, O constraint.Numeric | string](i I, o *O) {
 // AnyTo is a version of To that accepts input values of type any
 // The output value must still satisfy constraint.Numeric | string
 func AnyTo[O constraint.Numeric | string](i any, o *O) error {
+	if i == nil {
+		return fmt.Errorf(errAnyToInvalidIMsg, "nil")
+	}
+
 	var (
 		iv   = goreflect.ValueOf(i)
 		ival = reflect.ValueToBaseType(iv).Interface()
-- 
2.43.0


From eefce4b188a86fd81fbbd2fdc011898d95f7215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 19/67] fix: converting an unsigned integer of more than 53
 bits to a *big.Float does not round it

---
 conv/bigfloat.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 126aa67..d8fc499 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -21,7 +21,12 @@ func IntToBigFloat[T constraint.SignedInteger](ival T, oval **big.Float) {
 
 // UintToBigFloat converts any unsigned int type into a *big.Float
 func UintToBigFloat[T constraint.UnsignedInteger](ival T, oval **big.Float) {
-	*oval = big.NewFloat(0).SetUint64(uint64(ival))
+	// 64 bits are only needed if the value does not fit in the 53 bits of a float64
+	*oval = big.NewFloat(0)
+	if uint64(ival) > 1<<53 {
+		(*oval).SetPrec(64)
+	}
+	(*oval).SetUint64(uint64(ival))
 }
 
 // FloatToBigFloat converts any float type into a *big.Float
-- 
2.43.0


From dfbf297114856d9f3eb7831558d008155a21fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 20/67] fix: converting a *big.Rat too small for a float is an
 error, not 0

---
 conv/float.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conv/float.go b/conv/float.go
index 219fd77..f3dd764 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -98,7 +98,8 @@ func MustBigFloatToFloat32(ival *big.Float, oval *float32) {
 // Returns an error if the *big.Rat cannot be represented as a float32
 func BigRatToFloat32(ival *big.Rat, oval *float32) error {
 	var exact bool
-	if *oval, exact = ival.Float32(); !exact {
+	// big.Rat claims that a tiny value that becomes 0 is exact
+	if *oval, exact = ival.Float32(); !exact || ((*oval == 0) != (ival.Sign() == 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float32")
 	}
 
@@ -175,7 +176,8 @@ func MustBigFloatToFloat64(ival *big.Float, oval *float64) {
 // Returns an error if the *big.Rat cannot be represented as a float64
 func BigRatToFloat64(ival *big.Rat, oval *float64) error {
 	var exact bool
-	if *oval, exact = ival.Float64(); !exact {
+	// big.Rat claims that a tiny value that becomes 0 is exact
+	if *oval, exact = ival.Float64(); !exact || ((*oval == 0) != (ival.Sign() == 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float64")
 	}
 
-- 
2.43.0


From a1e48fbb5d5a1a647e82df9dd63500605beab5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 21/67] fix: FloatStringToBigRat returns an error for Inf
 instead of a nil value

---
 conv/bigrat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index f2d7adb..5b0803d 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -83,7 +83,8 @@ func FloatStringToBigRat(ival string, oval **big.Rat) error {
 		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
 	}
 
-	if _, _, err = big.NewFloat(0).Parse(ival, 10); err != nil {
+	var inter *big.Float
+	if inter, _, err = big.NewFloat(0).Parse(ival, 10); (err != nil) || inter.IsInf() {
 		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
 	}
 
-- 
2.43.0


From 18d17a8a41d8628c2f90f73375c84baa1ed89374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 22/67] fix: a decimal string followed by other text is invalid

---
 math/decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index c6c1b16..94a1ca7 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -16,7 +16,7 @@ import (
 
 var (
 	// optional minus sign, zero or more digits, optional dot and zero or more digits.
-	decimalRegex = regexp.MustCompile("(-?)([0-9]*)[.]?([0-9]*)")
+	decimalRegex = regexp.MustCompile("^(-?)([0-9]*)[.]?([0-9]*)$")
 
 	// Powers of 10 constants from 10^0 thru 10^18 (scale can be 0 - 18)
 	powersOf10 = []int64{
-- 
2.43.0


From b18fe4b02e8af74fb781c82b35c823397325941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 23/67] fix: strings of decimals with a scale of 18 can be
 parsed, their leading zero is not a significant digit

---
 math/decimal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 94a1ca7..787ed80 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -166,9 +166,9 @@ func StringToDecimal(value string) (d Decimal, err error) {
 	parts := decimalRegex.FindStringSubmatch(value)
 
 	// Error if string doesn't match regex
-	// Error if total number of digits > 18
+	// Error if total number of digits > 18, leading zeros are not significant
 	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
-	if (parts == nil) || slices.Equal(parts, []string{"", "", "", ""}) || ((len(parts[2]) + len(parts[3])) > 18) {
+	if (parts == nil) || slices.Equal(parts, []string{"", "", "", ""}) || ((len(strings.TrimLeft(parts[2], "0")) + len(parts[3])) > 18) {
 		err = fmt.Errorf(errInvalidStringMsg, value)
 		return
 	}
-- 
2.43.0


From 85c7562625380a7fed8487b72c23d3c1e0556dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 24/67] fix: adjusting the scale of decimals rounds values that
 have no integer digits

---
 math/decimal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math/decimal.go b/math/decimal.go
index 787ed80..e20562a 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -310,6 +310,12 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 			return fmt.Errorf(errValueTooSmallToRoundMsg, d2.String())
 		}
 
+		// If d1 has too few digits to have one at the first decimal place, the digits in front are all zeros
+		if len1 <= scaleDiff {
+			str1 = strings.Repeat("0", scaleDiff-len1+1) + str1
+			len1 = len(str1)
+		}
+
 		// Round by manipulating digits directly in string as a []byte
 		dig1 := []byte(str1)
 
-- 
2.43.0


From 59ae8cae0beeff35a952fa286446771f3ea81448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 25/67] fix: the product of decimals is rounded once, to the
 nearest value, and keeps its magnitude when a digit is dropped

---
 math/decimal.go | 49 ++++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index e20562a..a09ad5f 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -663,27 +663,20 @@ func (d Decimal) Mul(o Decimal) (Decimal, error) {
                 return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
             }
 
-            // While the total length > 18, round off decimal digits until it isn't
+            // While the total length or the scale > 18, drop decimal digits until it isn't
             // This may round to an integer, or may still have some decimals
-            var digit, carry byte
-            for ; len(base10) > 18; base10 = base10[:len(base10) - 1] {
-                digit = base10[len(base10) - 1] - '0' + carry
-                carry = 0
-                if digit >= 5 {
-                    carry = 1
-                }
+            // Only the most significant dropped digit decides if we round up, rounding digit by digit could do so twice
+            var digit byte
+            for ; (len(base10) > 18) || (rscale > 18); base10 = base10[:len(base10) - 1] {
+                digit = base10[len(base10) - 1] - '0'
                 rscale--
             }
 
-            // Get final digit
-            digit = base10[len(base10) - 1] - '0'
-
             // Convert byte slice back to a 64 bit int (cannot fail, as it is <= 18 digits in length)
             rval, _ = strconv.ParseInt(string(base10), 10, 64)
 
-            // Add 1 if the final carry is 1 and final digit >= 5
             // Let the binary add ripple the carry as needed
-            if (carry == 1) && (digit >= 5) {
+            if digit >= 5 {
                 rval++
 
                 // It is possible we just added 1 to an 18 digit value that became a 19 digit value
@@ -692,33 +685,31 @@ func (d Decimal) Mul(o Decimal) (Decimal, error) {
 		}
 	}
 
-    if round19 && (rval > decimalMaxValue) {
+    // If the value > 18 digits or rscale > 18, drop decimal digits until it isn't, rounding by the most significant one dropped
+    var rmdr int64
+    for (round19 && (rval > decimalMaxValue)) || (rscale > 18) {
         // If we have no decimal digits, we cannot round
         if rscale == 0 {
             return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
         }
 
-        // Round one digit
-        rmdr := rval % 10
+        rmdr = rval % 10
         rval /= 10
-        if rmdr >= 5 {
-            rval++
+        rscale--
+    }
 
-            // If we have 18 9's, then adding 1 would make it 19 digits again
-            if (rval > decimalMaxValue) {
+    if rmdr >= 5 {
+        rval++
+
+        // If we have 18 9's, then adding 1 makes it 19 digits again, which is an overflow if there are no decimal digits
+        if rval > decimalMaxValue {
+            if rscale == 0 {
                 return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
             }
-        }
-    }
 
-    // If rscale > 18, then we need to round off digits until it is down to 18
-    for rscale > 18 {
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
+            rval /= 10
+            rscale--
         }
-        rscale--
     }
 
 	// Perform common final operations, regardless of which technique was used to get the result
-- 
2.43.0


From 90e42a1b58d98e0467e68390442a916fa929ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 26/67] fix: dividing a decimal by an unsigned integer beyond
 the int64 range is an error

---
 math/decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index a09ad5f..dcb9b54 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -748,7 +748,7 @@ func (d Decimal) DivIntQuoRem(o uint) (Decimal, Decimal, error) {
 	for i := uint(0); i < d.scale; i++ {
 		intPartOfD /= 10
 	}
-	if int64(o) > intPartOfD {
+	if uint64(o) > uint64(intPartOfD) {
 		return Decimal{}, Decimal{}, fmt.Errorf(errDecimalDivisorTooLargeMsg, d, o)
 	}
 
-- 
2.43.0


From e1f10860a339fe80e504e7f43835ad2fa68d737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 27/67] fix: the parts a decimal is divided into add up to it
 if it is negative, or if the remainder has trailing zeros

---
 math/decimal.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index dcb9b54..839dd4e 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -772,19 +772,23 @@ func (d Decimal) MustDivIntQuoRem(o uint) (Decimal, Decimal) {
 // This method just calls DivIntQuoRem and spreads the remainder across the first remainder values returned.
 func (d Decimal) DivIntAdd(o uint) ([]Decimal, error) {
 	// Get the quotient and remainder, returning (nil, error) if an error is returned
-	q, r, e := d.DivIntQuoRem(o)
+	q, _, e := d.DivIntQuoRem(o)
 	if e != nil {
 		return nil, e
 	}
 
-	// Remainder is just a count of how many values need to be increased by 1
+	// Remainder is just a count of how many values need to be increased by 1, or decreased by 1 if it is negative
+	// The remainder returned cannot be used, it may have been normalized to a smaller scale
 	var (
-		rc  = r.value
+		rc  = d.value - q.value*int64(o)
+		adj = int64(funcs.Ternary(rc < 0, -1, 1))
 		res = make([]Decimal, o)
 	)
 	for i := int64(0); i < int64(o); i++ {
-		res[i] = Decimal{scale: d.scale, value: q.value + int64(funcs.Ternary(rc > 0, 1, 0)), denormalized: d.denormalized}
-		rc--
+		res[i] = Decimal{scale: d.scale, value: q.value + funcs.Ternary(rc != 0, adj, 0), denormalized: d.denormalized}
+		if rc != 0 {
+			rc -= adj
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 28e4e4154b16c60675e3bf74397c5f761c20ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 28/67] fix: dividing a decimal by a zero decimal is an error
 instead of a panic

---
 math/decimal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math/decimal.go b/math/decimal.go
index 839dd4e..fef6d6d 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -916,6 +916,11 @@ func (d Decimal) MustDivIntAdd(o uint) []Decimal {
 // = 1 * 10^18
 // = overflow
 func (d Decimal) Div(o Decimal) (Decimal, error) {
+	// If o is 0, return division by zero error
+	if o.value == 0 {
+		return Decimal{}, fmt.Errorf(errDecimalDivisionByZeroMsg, d)
+	}
+
 	// Check if d and o are positive (>= 0)
 	// 	fmt.Printf("%s / %s\n", d, o)
 	dpos, opos := d.value >= 0, o.value >= 0
-- 
2.43.0


From f6d9d5f5c41f5f5e4728b6b148b783fbd7ef508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 29/67] fix: the quotient of decimals has a scale of at most
 18, is rounded to the nearest value, and never wraps around

---
 math/decimal.go | 54 +++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index fef6d6d..fe3cc27 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -944,14 +944,18 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 	// If scale is negative, multiply q,r by 10^(-scale), set scale = 0
 	// If the multiplications go beyond the limit of digits, we have to error out
 	for s < 0 {
-		q *= 10
-		r *= 10
-		s += 1
-
-		if q > decimalMaxValue {
+		// Check before multiplying, the product may not fit in 64 bits
+		if q > decimalMaxValue/10 {
 			// Return over/underflow
 			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 		}
+
+		// Move the part of the remainder that can be divided to the quotient, so that it stays small
+		// The remainder is < 18 9's, so 10 times as much fits in an unsigned 64 bit value
+		ur := uint64(r) * 10
+		q = q*10 + int64(ur/uint64(oval))
+		r = int64(ur % uint64(oval))
+		s += 1
 	}
 
 	// If r != 0, perform successive multiply/divides until r = 0
@@ -962,36 +966,32 @@ main_loop:
 			nq, nr, ns := q*10, r*10, s+1
 			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
 
-			// If quotient exceeds max value, fall back on previous quotient, as most accurate result we can get
-			if nq > decimalMaxValue {
+			// If quotient or scale exceeds max value, fall back on previous quotient, as most accurate result we can get
+			// Compare against max value / 10, nq may not fit in 64 bits
+			if (q > decimalMaxValue/10) || (ns > decimalMaxScale) {
 				// fmt.Println("ran out of digits")
 
-				// Get next generated digit, so we know if we should round up the existing quotient
-				// Remainder may be < oval, multiply by 10 until it isn't
-				for nr < oval {
-					nr *= 10
-				}
-				nr /= oval
-				// fmt.Printf("next digit remainder = %d\n", nr)
-
-				// New remainder may be > 10
-				// If so, divide by 10 until remainder < 10, to get most significant digit of it
-				for nr > 10 {
-					nr /= 10
-				}
-				// fmt.Printf("next digit = %d\n", nr)
-
-				// Is next digit >= 5?
-				if nr >= 5 {
+				// The next digit is >= 5 if the remainder is at least half of the divisor
+				if r >= oval-r {
 					// fmt.Printf("Rounding up")
 					q++
+
+					// If we have 18 9's, then adding 1 makes it 19 digits, which only fits if there are decimal digits
+					if q > decimalMaxValue {
+						if s == 0 {
+							return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+						}
+
+						q /= 10
+						s--
+					}
 				}
 
 				break main_loop
 			}
 
 			// If remainder exceeds max value, over/underflow occurs
-			if nr > decimalMaxValue {
+			if r > decimalMaxValue/10 {
 				// fmt.Println("exceeded max")
 				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 			}
@@ -1012,7 +1012,9 @@ main_loop:
 	}
 
 	// Return result
-	return Decimal{value: q, scale: uint(s), denormalized: d.denormalized}, nil
+	res := Decimal{value: q, scale: uint(s), denormalized: d.denormalized}
+	res.applyNormalization()
+	return res, nil
 }
 
 // MustDiv is a must version of Div
-- 
2.43.0


From 25f0a9918ecbba3a4d06ff80f1ee30cf1ed96a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 30/67] fix: adding zero to a decimal with a scale of 18 does
 not round it

---
 math/decimal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index fe3cc27..466d8f0 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -291,7 +291,8 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 	)
 
 	// Does d2 have enough remaining capacity for the required trailing zeroes to increase the scale?
-	if d2Capacity >= scaleDiff {
+	// Zero has no significant digits, any number of zeros can be added
+	if (d2Capacity >= scaleDiff) || (d2.value == 0) {
 		// Easy solution - multiply d2 by 10 ^ scaleDiff, and set scale to match d1
 		for i := 0; i < scaleDiff; i++ {
 			d2.value *= 10
-- 
2.43.0


From 416676be0658fec163dfab37c47ff6084861c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 31/67] fix: the escape \u0022 is a double quote character of a
 JSON string, not the end of it

---
 encoding/json/parse/lex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..eac6c85 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -199,6 +199,12 @@ func lexString(it iter.Iter[rune]) (token, error) {
                     hexVal = hexValCombined
 				}
 
+				if hexVal == '"' {
+					// Same special case as above
+					str = append(str, '"')
+					continue
+				}
+
 				val = hexVal
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
-- 
2.43.0


From 630f512c4a3f3e672d7e7c1d9e275b9e7319e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 32/67] fix: a negative JSON number cannot have a leading zero
 either

---
 encoding/json/parse/lex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index eac6c85..c91577d 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -266,11 +266,14 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		}
 
 		if (val >= '0') && (val <= '9') {
-			haveDigit = true
 			str = append(str, val)
 			if leadingZero {
 				return die()
 			}
+
+			// The first digit may follow a -
+			leadingZero = (!haveDigit) && (val == '0')
+			haveDigit = true
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
-- 
2.43.0


From 8198815cf8761b7fea3eb8c259a3b6dbb39dedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 33/67] fix: a JSON object cannot have a comma before the
 closing brace

---
 encoding/json/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..76debe8 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -92,8 +92,8 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			return zv, err // Case 2
 		}
 
-		// If closing brace, valid empty object
-		if key.typ == tCBrace {
+		// If closing brace, valid empty object - but not after a comma
+		if (key.typ == tCBrace) && (len(object) == 0) {
 			return json.MapToValue(object)
 		}
 
-- 
2.43.0


From cf3f32c956a7bff5a9d64e2e5b0740043d0cec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 34/67] fix: a token that cannot begin a JSON value is an error
 where a value is required

---
 encoding/json/parse/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 76debe8..38372ed 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -134,6 +134,9 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			// A problem
 			return zv, err // Case 10
 		}
+		if value.Type() == json.Invalid {
+			return zv, fmt.Errorf(errObjectKeyRequiresValueMsg, key.value)
+		}
 		object[key.value] = value
 
 		// Expect a comma or closing brace
@@ -202,6 +205,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValueOrBracket
+			}
 
 			// Return first value
 			first = false
@@ -233,6 +239,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValue
+			}
 
 			return value, nil
 		}
-- 
2.43.0


From 3227b1c69786805847f2013b2818d65162120946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 35/67] fix: text after a JSON document is an error

---
 encoding/json/parse/parse.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 38372ed..e75c79c 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -23,6 +23,7 @@ var (
 	errArrayRequiresValueOrBracket           = fmt.Errorf("A JSON array must have an element or closing bracket after the opening bracket")
 	errArrayRequiresCommaOrBracket           = fmt.Errorf("A JSON array element must be followed by a comma or closing bracket")
 	errEmptyDocument                         = fmt.Errorf("A JSON document cannot be empty")
+	errEndOfDocumentRequired                 = fmt.Errorf("A JSON document cannot be followed by anything but whitespace")
 	errObjectOrArrayRequired                 = fmt.Errorf("A JSON document must begin with a brace or bracket")
 )
 
@@ -255,6 +256,21 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 	})
 }
 
+// parseEnd verifies there are no more tokens after a document
+func parseEnd(it iter.Iter[token]) error {
+	_, err := it.Next()
+	if err == nil {
+		return errEndOfDocumentRequired
+	}
+
+	// A problem
+	if err != iter.EOI {
+		return err
+	}
+
+	return nil
+}
+
 // Iterate parses a JSON document into an iter[json.Value].
 // If the document is an object, the object is parsed completely before returning it as an iter of one element.
 // If the document is an array, the array top level elements are parsed as the returnd iter is iterated.
@@ -288,6 +304,9 @@ func Iterate(src io.Reader) iter.Iter[json.Value] {
 			// Can't be EOI, we know a token existed before the call
 			return iter.SetError(iter.OfEmpty[json.Value](), err) // Case 3
 		}
+		if err = parseEnd(it); err != nil {
+			return iter.SetError(iter.OfEmpty[json.Value](), err)
+		}
 
 		return iter.OfOne(val)
 	}
@@ -295,7 +314,18 @@ func Iterate(src io.Reader) iter.Iter[json.Value] {
 	// If array, return iter of array elements, which are parsed later as the iter is iterated
 	if firstTok.typ == tOBracket {
 		it.Unread(firstTok)
-		return parseArray(it)
+		elements := parseArray(it)
+
+		return iter.OfIter(func() (json.Value, error) {
+			val, err := elements.Next()
+			if err == iter.EOI {
+				if endErr := parseEnd(it); endErr != nil {
+					err = endErr
+				}
+			}
+
+			return val, err
+		})
 	}
 
 	// Die if some other token exists that is not a brace or bracket
@@ -332,6 +362,9 @@ func Parse(src io.Reader) (json.Value, error) {
 			// Can't be EOI, already checked that
 			return zv, err // Case 3
 		}
+		if err = parseEnd(it); err != nil {
+			return zv, err
+		}
 
 		return doc, nil
 	}
-- 
2.43.0


From 9345aec67a1970631c687fc5917945921c41b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 36/67] fix: JSON numbers are exactly the strings JSON allows,
 infinity and NaN are not

---
 encoding/json/value.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..d7d9252 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$")
 
 // Error constants
 var (
@@ -227,8 +227,8 @@ func numberToValue(val any) (nval Value, err error) {
 			return
 		}
 
-		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A NumberString could be the empty string, or "foo" or some other value that is not a number, as can infinity
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From d12c38f5c7682b73f681d8a66983b290597de0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 37/67] fix: ToValue accepts map[string]Value and []Value, as
 its constraint does

---
 encoding/json/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index d7d9252..1e286fe 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -93,6 +93,12 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+		// Object or Array of Values
+	} else if mp, isa := val.(map[string]Value); isa {
+		res, err = MapToValue(mp)
+	} else if arr, isa := val.([]Value); isa {
+		res, err = SliceToValue(arr)
+
 		// Boolean
 	} else if bln, isa := val.(bool); isa {
 		res = BoolToValue(bln)
-- 
2.43.0


From b5fbc63b85887e61fee8b99c7eb6a46d1414e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 38/67] fix: converting a string subtype to a JSON value does
 not panic

---
 encoding/json/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 1e286fe..07059e0 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -116,7 +116,7 @@ func toValue(val any) (res Value, err error) {
 			if typ.AssignableTo(goreflect.TypeOf(NumberString(""))) {
 				res, err = numberToValue(val.(NumberString))
 			} else {
-				res = StringToValue(val.(string))
+				res = StringToValue(goreflect.ValueOf(val).String())
 			}
 
 			return
-- 
2.43.0


From b167e7162f640f486900280c1566e10c375851e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 39/67] fix: strings and object keys are escaped when JSON is
 written

---
 encoding/json/write/write.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..0cfb2cb 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -3,11 +3,31 @@ package write
 // SPDX-License-Identifier: Apache-2.0
 
 import (
+	"fmt"
+
 	"github.com/bantling/micro/encoding/json"
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/io/writer"
 )
 
+// appendString appends a quoted string to the data, escaping the characters that cannot occur in a JSON string
+func appendString(data []rune, str string) []rune {
+	data = append(data, '"')
+
+	for _, r := range str {
+		switch {
+		case (r == '"') || (r == '\\'):
+			data = append(data, '\\', r)
+		case r < ' ':
+			data = append(data, []rune(fmt.Sprintf("\\u%04x", r))...)
+		default:
+			data = append(data, r)
+		}
+	}
+
+	return append(data, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +36,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(appendString(nil, jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +66,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(appendString(data, k), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0


From 2dcaf8f6a2fe5fac37cfaf15e805a1d10ba5455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 40/67] fix: Generator generates a function once per iterator,
 not every time it is applied to the same one

---
 stream/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..37019f5 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -711,7 +711,7 @@ func Generator[T, U any](gen func() func(iter.Iter[T]) iter.Iter[U]) func(iter.I
 
 	return func(it iter.Iter[T]) iter.Iter[U] {
 		if currentIter != it {
-			fn = gen()
+			currentIter, fn = it, gen()
 		}
 
 		return fn(it)
-- 
2.43.0


From d8643fae5b5084a86f9952cc384ac813c2068fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 41/67] fix: expanding maps does not panic on nil keys or
 values of an interface type

---
 stream/stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 37019f5..077d361 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -589,9 +589,11 @@ func ExpandMaps[K comparable, V any](it iter.Iter[map[K]V]) iter.Iter[tuple.Two[
 			}
 		}
 
-		val := tuple.Of2(mr.Key().Interface().(K), mr.Value().Interface().(V))
+		// The key and value may be nil if they have an interface type
+		k, _ := mr.Key().Interface().(K)
+		v, _ := mr.Value().Interface().(V)
 
-		return val, nil
+		return tuple.Of2(k, v), nil
 	})
 }
 
-- 
2.43.0


From 26a792dbd63b0c52736ead2585a383ee58c2f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 42/67] fix: AbsBigOps does not change the elements of its
 source

---
 stream/stream.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index 077d361..bba898b 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -900,10 +900,16 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 	})(it)
 }
 
+// newBigOps allocates a zero value, where a *big.Float has no precision yet, so that it gets the precision of the operands
+func newBigOps[T constraint.BigOps[T]]() T {
+	var zv T
+	return reflect.New(reflect.TypeOf(zv).Elem()).Interface().(T)
+}
+
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
-		return v.Abs(v)
+		return newBigOps[T]().Abs(v)
 	})(it)
 }
 
-- 
2.43.0


From 3ab658efbaffee2f135daf7d7f491996b87a7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 43/67] fix: the sum and average of *big.Float elements have
 the precision of the elements, not 4 bits

---
 stream/stream.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index bba898b..70f921a 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1008,31 +1008,29 @@ func AvgBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return iter.OfIter(
 		func() (T, error) {
 			var (
-				sum   T
-				count T
-				one   T
+				sum   = newBigOps[T]()
+				count int
+				div   T
 				val   T
 				avg   T
 				zv    T
 				err   error
 			)
-			conv.ToBigOps(0, &sum)
-			conv.ToBigOps(0, &count)
-			conv.ToBigOps(1, &one)
 
 			for {
 				if val, err = it.Next(); err == nil {
 					// Sum all values and count them
-					sum.Add(sum, val)
-					count.Add(count, one)
+					sum = newBigOps[T]().Add(sum, val)
+					count++
 				} else if err == iter.EOI {
-					if count.Sign() == 0 {
+					if count == 0 {
 						// Empty result
 						return zv, err
 					}
 
 					// Non-empty result - divisor = zero handled above, so Div will never fail
-					math.DivBigOps(sum, count, &avg)
+					conv.ToBigOps(count, &div)
+					math.DivBigOps(sum, div, &avg)
 					break
 				} else {
 					return zv, err
@@ -1093,12 +1091,9 @@ func Sum[T constraint.IntegerAndFloat](it iter.Iter[T]) iter.Iter[T] {
 
 // SumBigOps is the *big.Int, *big.Float, *big.Rat specialization of Sum
 func SumBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
-	var sum T
-	conv.ToBigOps(0, &sum)
-
 	return Reduce(
 		func(a, b T) T {
-			return sum.Add(a, b)
+			return newBigOps[T]().Add(a, b)
 		},
 	)(it)
 }
-- 
2.43.0


From 3eefb4a2c217f7a4da0affb4b11590a5b538b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 44/67] fix: parallel transforms may produce fewer or more
 items than they consume, and map between interface types

---
 stream/stream.go | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 70f921a..187f2bf 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1181,8 +1181,7 @@ func generateRanges(numItems uint, info []PInfo) [][]uint {
 // If the input has one item, the transforms are performed in the same thread.
 // If the input has two or more items, the above algorithm is used to perform transforms in two or more threads.
 //
-// If types T and U are the same, then a single slice is allocated to contain the input and modified in place to produce
-// the output. Otherwise, two slices are allocated, one for input and one for output.
+// The output is the output of all buckets in the order of the input, no matter how many items each bucket is transformed to.
 func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInfo) func(iter.Iter[T]) iter.Iter[U] {
 	return func(source iter.Iter[T]) iter.Iter[U] {
 		// Get values into a slice
@@ -1208,33 +1207,21 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		// At least two items, as required by generateRanges. Get slice ranges.
 		sliceRanges := generateRanges(numItems, info)
 
-		// Determine a slice to use for the output
-		var (
-			zt     T
-			zu     U
-			output []U
-		)
-		if reflect.TypeOf(zt) == reflect.TypeOf(zu) {
-			// T and U are the same type, modify input slice in place
-			output = any(input).([]U)
-		} else {
-			// Create a separate output slice
-			output = make([]U, numItems)
-		}
-
 		// Create a WaitGroup that can wait for all threads to complete
 		var (
-			wg   sync.WaitGroup
-			errs = make([]error, len(sliceRanges))
+			wg      sync.WaitGroup
+			outputs = make([][]U, len(sliceRanges))
+			errs    = make([]error, len(sliceRanges))
 		)
 
-		// The function to execute in each thread, accepting source and target subslices
-		threadFn := func(threadNum int, in []T, out []U) {
+		// The function to execute in each thread, accepting source subslice
+		threadFn := func(threadNum int, in []T) {
 			// Decrement number of threads remaining once transforms are complete
 			defer wg.Done()
 
-			// Perform transforms and copy to output
-			_, threadErr := ReduceIntoSlice(out)(transforms(iter.OfSlice(in))).Next()
+			// Perform transforms, which may produce fewer or more items than they consume
+			out, threadErr := ReduceToSlice(transforms(iter.OfSlice(in))).Next()
+			outputs[threadNum] = out
 
 			// In case an error occurs, populate the appropriate errs slot
 			errs[threadNum] = threadErr
@@ -1243,7 +1230,7 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		// Create the threads, passing a subslice of input to each thread for processing
 		for threadNum, sliceRange := range sliceRanges {
 			wg.Add(1)
-			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]], output[sliceRange[0]:sliceRange[1]])
+			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]])
 		}
 
 		// Wait for threads to complete
@@ -1258,6 +1245,12 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 			}
 		}
 
+		// Put the outputs of the threads together in the order of their input
+		output := make([]U, 0, numItems)
+		for _, out := range outputs {
+			output = append(output, out...)
+		}
+
 		return funcs.Ternary(err == nil, iter.OfSlice(output), iter.SetError(iter.OfEmpty[U](), err))
 	}
 }
-- 
2.43.0


From 595f420a36a0ada19fffb4f2a3548860cf7dce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 45/67] fix: an allocated *big.Float quotient has the precision
 of the operands, not 53 bits

---
 math/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/math.go b/math/math.go
index ebccec2..ce9b273 100755
--- a/math/math.go
+++ b/math/math.go
@@ -361,7 +361,7 @@ var (
 			// If q (**big.Float) points to nil, then allocate a quotient
 			debf, dvbf, qbfp := de.(*big.Float), dv.(*big.Float), q.(**big.Float)
 			if *qbfp == nil {
-				*qbfp = big.NewFloat(0)
+				*qbfp = new(big.Float)
 			}
 			qbf := *qbfp
 
-- 
2.43.0


From eefd8d8f6d1e20385225cf05f6e605ea2ea2ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 46/67] fix: adding a key smaller than all others to an ordered
 table inserts it first, not second

---
 funcs/funcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..6424045 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -678,6 +678,10 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 	case index == -1:
 		*mp = []tuple.Two[K, []V]{tuple.Of2(key, []V{value})}
 
+	case key < (*mp)[index].T:
+		// key is less than all existing keys, insert the new tuple before the first one
+		*mp = append([]tuple.Two[K, []V]{tuple.Of2(key, []V{value})}, *mp...)
+
 	case matches:
 		// index of matching tuple, replace tuple with new tuple that has value appended to slice
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
-- 
2.43.0


From 0a94fa2cd0cc3f11b78964ff70a1ed0692bc3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 47/67] fix: removing an uncomparable value does not remove
 another one of a different type, or which prints the same

---
 funcs/funcs.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 6424045..9d9672a 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -200,6 +200,18 @@ func SliceRemove[T comparable](slc []T, val T, all ...bool) []T {
 	return newSlc
 }
 
+// isSame returns true if two values of the same type are equal, or are the same pointer if they are not comparable.
+func isSame(a, b any) (same bool) {
+	defer func() {
+		// Comparing values of the same type panics if the type is not comparable
+		if recover() != nil {
+			same = fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b)
+		}
+	}()
+
+	return a == b
+}
+
 // SliceRemoveUncomparable removes a slice element from a slice of uncomparable values (they must be pointers).
 // By default, only the first occurrence is removed. If the optional all param is true, then all occurrences are removed.
 // The new slice is returned.
@@ -207,13 +219,10 @@ func SliceRemove[T comparable](slc []T, val T, all ...bool) []T {
 // Note: If only the first occurrence is removed, then the the append builtin is used twice, once with all elements before
 // the occurrence, and again for all elements after it. Otherwise, a new slice is populated with all other elements.
 func SliceRemoveUncomparable[T any](slc []T, val T, all ...bool) []T {
-	// Get pointer of val
-	valPtr := fmt.Sprintf("%p", any(val))
-
 	// Handle case of first occurrence
 	if !SliceIndex(all, 0, false) {
 		for i, t := range slc {
-			if fmt.Sprintf("%p", any(t)) == valPtr {
+			if isSame(t, val) {
 				newSlc := make([]T, 0, len(slc)-1)
 				newSlc = append(append(newSlc, (slc)[0:i]...), (slc)[i+1:]...)
 				return newSlc
@@ -227,7 +236,7 @@ func SliceRemoveUncomparable[T any](slc []T, val T, all ...bool) []T {
 	// Handle case of all occurrences
 	newSlc := []T{}
 	for _, t := range slc {
-		if fmt.Sprintf("%p", any(t)) != valPtr {
+		if !isSame(t, val) {
 			newSlc = append(newSlc, t)
 		}
 	}
-- 
2.43.0


From 7e36f8bf920c0b1e2d19e57abe0174cb51e5fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 48/67] fix: removing a key of an ordered table does not shift
 the entries of a table that is being iterated

---
 funcs/funcs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 9d9672a..afd2e76 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -705,7 +705,8 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 // OrderedTuple2SliceRemoveKey removes a key from the []Tuple.Two[K, V], if the key exists
 func OrderedTuple2SliceRemoveKey[K constraint.Ordered, V any](mp *[]tuple.Two[K, V], key K) {
 	if index, matches := OrderedTuple2Search(*mp, key); matches {
-		*mp = append((*mp)[:index], (*mp)[index+1:]...)
+		// build from an empty slice, the original may be in use, eg by an event being sent
+		*mp = append(append([]tuple.Two[K, V]{}, (*mp)[:index]...), (*mp)[index+1:]...)
 	}
 }
 
-- 
2.43.0


From 0be485124e36fae30a7e8df12eb981d9d48d1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 49/67] fix: handlers can be added while requests are being
 served, as documented, without a data race

---
 rest/rest.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rest/rest.go b/rest/rest.go
index 060d1c2..ff3c7d8 100755
--- a/rest/rest.go
+++ b/rest/rest.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"regexp"
+	"sync"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -43,6 +44,8 @@ func (hf HandlerFunc) Serve(w http.ResponseWriter, r *http.Request, urlParts []s
 // the URL alone like the http.ServeMux implementation.
 // The zero value is ready to use.
 type ServeMux struct {
+	// guards handlers, as Handle can be called while requests are being served
+	mutex sync.RWMutex
 	// [](method, regexp, handler)
 	// A flat structure is used to disambiguate a 404 not found error from a 405 method not allowed error
 	handlers []tuple.Three[string, *regexp.Regexp, Handler]
@@ -74,6 +77,8 @@ func (sm *ServeMux) Handle(method, pattern string, handler Handler) error {
 	}
 
 	// Add method, pattern, and handler triple
+	sm.mutex.Lock()
+	defer sm.mutex.Unlock()
 	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
 
 	return nil
@@ -85,14 +90,19 @@ func (sm *ServeMux) MustHandle(method, pattern string, handler Handler) {
 }
 
 // ServeHTTP is http.Handler interface method
-func (sm ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+func (sm *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	// Get the method and url
 	method, url := r.Method, r.URL.Path
 
+	// Get the handlers registered so far, without blocking Handle while a handler serves the request
+	sm.mutex.RLock()
+	handlers := sm.handlers
+	sm.mutex.RUnlock()
+
 	// Iterate the method, regexp, and handler triples to find the first method match and regexp url matches, if any
 	var urlMatched bool
 
-	for _, methodPatternHandler := range sm.handlers {
+	for _, methodPatternHandler := range handlers {
 		mMethod, mPattern, mHandler := methodPatternHandler.Values()
 		parts := mPattern.FindStringSubmatch(url)
 
-- 
2.43.0


From e774c46516711f5ef4d05604d0393fb032a122c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 50/67] fix: OfResultError accepts an error with a nil value of
 an interface type instead of crashing

---
 union/union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union/union.go b/union/union.go
index 8b40b5d..47cb535 100755
--- a/union/union.go
+++ b/union/union.go
@@ -177,7 +177,7 @@ func OfError[R any](err error) Result[R] {
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
 		// R is not comparable
-		if !goreflect.ValueOf(r).IsZero() {
+		if !goreflect.ValueOf(&r).Elem().IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From 89c6380666fdd91208391bdf08b05073a1c12183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 51/67] fix: a pointer to a nil pointer to a Maybe is not
 accessed, instead of crashing

---
 union/reflect/reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 0d0e0ec..f4aa909 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -36,11 +36,11 @@ func GetMaybeType(typ goreflect.Type) goreflect.Type {
 // safeMaybeAccess returns true if the given reflect.Value can safely be accessed as a Maybe value, which is true if:
 // - The reflect.Value is valid
 // - GetMaybeType(val.Type()) returns a non-nil reflect.Type
-// - The reflect.Value is a non-nil pointer or a value
+// - The reflect.Value is a value or a pointer that leads to one, with no nil pointer along the way
 func safeMaybeAccess(val goreflect.Value) bool {
 	return val.IsValid() &&
 		(GetMaybeType(val.Type()) != nil) &&
-		((val.Kind() != goreflect.Pointer) || !val.IsNil())
+		reflect.DerefValue(val).IsValid()
 }
 
 // MaybeValueIsPresent indicates if the given reflect.Value wraps a present Maybe. which is true if:
-- 
2.43.0


From a1ca778197c1bfeab0813bd724779c7c46201660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 52/67] fix: SetMaybeValue returns an error for a value of
 another type, as documented, instead of crashing

---
 union/reflect/reflect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index f4aa909..dbf6f7a 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -17,6 +17,7 @@ var (
 var (
 	errGetMaybeValueEmptyMsg         = "Cannot get the Maybe value of an empty %s"
 	errSetMaybeValueUnsafeMsg        = "Cannot set the Maybe value of type %s"
+	errSetMaybeValueTypeMsg          = "Cannot set the Maybe value of type %s to a value of type %s"
 	errSetMaybeValueUnaddressableMsg = "Cannot set the Maybe value of type %s as it is not a pointer and not addressable"
 )
 
@@ -76,6 +77,10 @@ func SetMaybeValue(dst, val goreflect.Value) error {
 		return fmt.Errorf(errSetMaybeValueUnaddressableMsg, reflect.TypeOf(dst))
 	}
 
+	if !val.IsValid() || !val.Type().AssignableTo(GetMaybeType(dst.Type())) {
+		return fmt.Errorf(errSetMaybeValueTypeMsg, reflect.TypeOf(dst), reflect.TypeOf(val))
+	}
+
 	reflect.DerefValue(dst).Addr().MethodByName("Set").Call([]goreflect.Value{val})
 	return nil
 }
-- 
2.43.0


From 7e814e6060615255cfd262143d34e13319f37fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 53/67] fix: SliceFlatten accepts nil elements of an interface
 type instead of crashing

---
 funcs/funcs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index afd2e76..89401d1 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -127,7 +127,9 @@ func SliceFlatten[T any](value any) []T {
 			if val.Kind() == reflect.Slice {
 				f(val)
 			} else {
-				rslc = append(rslc, val.Interface().(T))
+				// A nil value of an interface type is the zero value
+				elem, _ := val.Interface().(T)
+				rslc = append(rslc, elem)
 			}
 		}
 	}
-- 
2.43.0


From 248c7bbe60432c7c4cb1330150041b92315a7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 54/67] fix: SliceFlatten accepts a one dimensional slice of a
 named type instead of crashing

---
 funcs/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 89401d1..51da474 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -113,7 +113,7 @@ func SliceFlatten[T any](value any) []T {
 
 	// If original value is already one dimenion return it by reference
 	if numDims == 1 {
-		return value.([]T)
+		return vslc.Convert(reflect.TypeOf(rslc)).Interface().([]T)
 	}
 
 	// Recursively iterate all dimensions of the given slice, some dimensions might be empty
-- 
2.43.0


From 187b43e75bf01ec6d034ac682f4cff7aad32b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 55/67] fix: SnakeToCamelCase accepts empty input, as
 documented, empty words, and multi byte first letters

---
 funcs/funcs.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 51da474..694a129 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -9,6 +9,8 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -1383,8 +1385,11 @@ func TryTo(tryFn func(), panicFn func(any), closers ...func()) {
 func SnakeToCamelCase(snake string) string {
 	var sb strings.Builder
 	for _, word := range strings.Split(snake, "_") {
-		sb.WriteString(strings.ToUpper(string(word[0])))
-		sb.WriteString(string(word[1:]))
+		// An empty word (empty input, or consecutive, leading, or trailing underscores) has no first char
+		if first, size := utf8.DecodeRuneInString(word); size > 0 {
+			sb.WriteRune(unicode.ToUpper(first))
+			sb.WriteString(word[size:])
+		}
 	}
 
 	return sb.String()
-- 
2.43.0


From 8f424cdfc3f5c2c3d91d5d10cf3d9428feebf0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 56/67] fix: CamelCaseToSnakeCase accepts empty input, and
 keeps digits and letters outside of ASCII instead of dropping them

---
 funcs/funcs.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 694a129..474c977 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -37,8 +37,8 @@ const (
 )
 
 var (
-	// ucaseRegexp is a regexp for uppercase chars
-	camelWordsRegexp = regexp.MustCompile("[A-Z][a-z]*")
+	// camelWordsRegexp is a regexp for an uppercase char and the lowercase chars and digits after it
+	camelWordsRegexp = regexp.MustCompile("\\p{Lu}[^\\p{Lu}_]*")
 )
 
 // ==== Slices
@@ -1396,16 +1396,19 @@ func SnakeToCamelCase(snake string) string {
 }
 
 // CamelCaseToSnakeCase converts [cC]amelCase to snake_case
+// If the input is empty, the result is empty
 func CamelCaseToSnakeCase(camel string) string {
 	var (
-		sb       strings.Builder
-		words    = camelWordsRegexp.FindAllString(strings.ToUpper(string(camel[0]))+camel[1:], -1)
-		lastWord = len(words) - 1
+		sb          strings.Builder
+		first, size = utf8.DecodeRuneInString(camel)
+		words       = camelWordsRegexp.FindAllString(string(unicode.ToUpper(first))+camel[size:], -1)
+		lastWord    = len(words) - 1
 	)
 
 	for i, word := range words {
-		sb.WriteString(strings.ToLower(string(word[0])))
-		sb.WriteString(word[1:])
+		first, size = utf8.DecodeRuneInString(word)
+		sb.WriteRune(unicode.ToLower(first))
+		sb.WriteString(word[size:])
 		if i < lastWord {
 			sb.WriteRune('_')
 		}
-- 
2.43.0


From 5f73b51dda031ad03d05d188d8a464fc6cabec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 57/67] fix: ResolveValueType accepts a value of an unexported
 field instead of crashing

---
 reflect/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 85043e2..0cb6381 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -230,7 +230,7 @@ func ResolveValueType(val goreflect.Value) goreflect.Value {
 	// Check special case
 	if val.IsValid() && (val.Kind() == goreflect.Interface) {
 		// Return a new wrapper that is typed according to actual value type
-		return goreflect.ValueOf(val.Interface())
+		return val.Elem()
 	}
 
 	return val
-- 
2.43.0


From 66406d5e9ab9492abf0d380f99b673f794a8878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 58/67] fix: TypeAssert returns an error for a nil value of an
 interface type instead of crashing

---
 reflect/reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 0cb6381..53fcda6 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -241,9 +241,10 @@ func ResolveValueType(val goreflect.Value) goreflect.Value {
 // Unlike Go's type assertion syntax, this function can be called with any kind of value and any type.
 // If desired, an optional message can be provided that is placed at the beginning of the error message, followed by a colon and space.
 func TypeAssert(val goreflect.Value, typ goreflect.Type, msg ...string) error {
-	if rt := ResolveValueType(val).Type(); rt != typ {
+	// A nil value of an interface type resolves to an invalid Value, which has no type
+	if rv := ResolveValueType(val); (!rv.IsValid()) || (rv.Type() != typ) {
 		prefix := funcs.SliceIndex(msg, 0)
-		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), val.Type(), rt, typ)
+		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), TypeOf(val), TypeOf(rv), typ)
 	}
 
 	return nil
-- 
2.43.0


From 28a457f411bbc0a68c0418f3077e77454df6ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 59/67] fix: ValueToBaseType converts nil pointers and subtypes
 of pointers as documented, instead of not at all or crashing

---
 reflect/reflect.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 53fcda6..59c617e 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -288,10 +288,13 @@ func ValueToBaseType(val goreflect.Value) goreflect.Value {
 		// If so, then convert the value to the base type
 		return val.Convert(pt)
 	} else if k == goreflect.Ptr {
-		k = val.Elem().Kind()
+		// Examine the type, as the pointer may be nil
+		et := val.Type().Elem()
+		k = et.Kind()
 		pt = kindToType[k]
-		if (pt != nil) && (k.String() != val.Elem().Type().String()) {
-			return val.Convert(goreflect.PtrTo(pt))
+		if (pt != nil) && (k.String() != et.String()) {
+			// A subtype of a pointer type can only be converted to the pointer type first
+			return val.Convert(goreflect.PtrTo(et)).Convert(goreflect.PtrTo(pt))
 		}
 	}
 
-- 
2.43.0


From 93120336e00353a6f2b3280d3786a1861e86cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 60/67] fix: FloatToFloat refuses a value out of the range of a
 subtype of float32, instead of returning an infinity or zero

---
 conv/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/float.go b/conv/float.go
index f3dd764..d4e912d 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -43,7 +43,7 @@ func FloatToFloat[I constraint.Float, O constraint.Float](ival I, oval *O) error
 		return nil
 	}
 
-	if _, isa := any(oval).(*float32); isa && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
+	if (goreflect.TypeOf(*oval).Kind() == goreflect.Float32) && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
 		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%g", ival64), "float32")
 	}
 
-- 
2.43.0


From f51d7379bcacabcab8cf3f393b12479c91affec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 61/67] fix: BaseGenerator.Dir makes the directory the current
 one, instead of crashing after creating it

---
 code/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/api.go b/code/api.go
index 458a9be..8a2b153 100755
--- a/code/api.go
+++ b/code/api.go
@@ -115,7 +115,11 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
 
+	if bg.dirs == nil {
+		bg.dirs = map[string]bool{}
+	}
 	bg.dirs[dirPath] = true
+	bg.currentDir = dirPath
 }
 
 // Src panics if the file already exists
-- 
2.43.0


From 63bf3b47b08d3c64f772e2d601811423fccebe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 62/67] fix: BaseGenerator.Src refuses to create a file when
 there is no current directory, instead of creating it in the root directory

---
 code/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/api.go b/code/api.go
index 8a2b153..bd02550 100755
--- a/code/api.go
+++ b/code/api.go
@@ -19,6 +19,7 @@ const (
 	errBasePathDeleteMsg      = "The base path %s could not be deleted: %s"
 	errDirExistsInBasePathMsg = "The dir %s already exists in base path %s"
 	errCreateDirInBasePathMsg = "The dir %s could not be created in base path %s: it already exists"
+	errNoCurrentDirMsg        = "The file %s could not be created: no dir has been created"
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
 )
 
@@ -129,6 +130,11 @@ func (bg *BaseGenerator) Src(name string) {
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, error(nil)))
 	}
 
+	// Die if there is no current dir, the file would be created in the root dir
+	if bg.currentDir == "" {
+		panic(fmt.Errorf(errNoCurrentDirMsg, name))
+	}
+
 	path := bg.currentDir + "/" + name
 	f, err := os.Create(path)
 	if err != nil {
-- 
2.43.0


From e3c41b6c869196f6e5704968b0390d45c2fc03c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 63/67] fix: BaseGenerator creates directories that can be
 used, instead of ones without any permission

---
 code/api.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/api.go b/code/api.go
index bd02550..97da7bc 100755
--- a/code/api.go
+++ b/code/api.go
@@ -79,7 +79,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 	if err != nil {
 		if os.IsNotExist(err) {
 			// Doesn't exist is ok, we'll just create all the parts that are missing for it
-			if err = os.MkdirAll(cleanPath, fs.ModeDir); err != nil {
+			if err = os.MkdirAll(cleanPath, fs.ModePerm); err != nil {
 				// Could not create some part
 				panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 			}
@@ -94,7 +94,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 			panic(fmt.Errorf(errBasePathDeleteMsg, cleanPath, err))
 		}
 
-		if err = os.Mkdir(cleanPath, fs.ModeDir); err != nil {
+		if err = os.Mkdir(cleanPath, fs.ModePerm); err != nil {
 			// Could not recreate path
 			panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 		}
@@ -111,7 +111,7 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errDirExistsInBasePathMsg, dirPath, bg.basePath))
 	}
 
-	if err := os.MkdirAll(dirPath, fs.ModeDir); err != nil {
+	if err := os.MkdirAll(dirPath, fs.ModePerm); err != nil {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
-- 
2.43.0


From b7c2862702a65191b9a2eeb9561da3fdddf5c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 64/67] fix: BaseGenerator.SetBasePath refuses to set the base
 path again, as documented, instead of deleting the directory it is given

---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 97da7bc..b460c9d 100755
--- a/code/api.go
+++ b/code/api.go
@@ -69,7 +69,7 @@ func (bg BaseGenerator) GetBasePath() string {
 // SetBasePath panics if the base path has already been set
 func (bg *BaseGenerator) SetBasePath(bp string) {
 	// Die if base path has already been set
-	bg.basePath.SetOrError(bp)
+	funcs.Must(bg.basePath.SetOrError(bp))
 
 	// Use clean path
 	cleanPath := path.Clean(bp)
-- 
2.43.0


From a9d6b0cb5617ceceaf538f948cf01312a1df98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 65/67] fix: OfStringAsRunes reports invalid UTF-8 as the other
 iterators of runes do, instead of replacing it by another character

---
 iter/iter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iter/iter.go b/iter/iter.go
index c2c076b..5e96d5b 100755
--- a/iter/iter.go
+++ b/iter/iter.go
@@ -115,9 +115,9 @@ func OfReaderAsRunes(src goio.Reader) Iter[rune] {
 
 // OfStringAsRunes constructs an Iter[rune] that iterates runes of a string.
 //
-// See SliceIterGen.
+// See StringAsRunesIterGen.
 func OfStringAsRunes(src string) Iter[rune] {
-	return OfIter(SliceIterGen([]rune(src)))
+	return OfIter(StringAsRunesIterGen(src))
 }
 
 // OfReaderAsLines constructs an Iter[string] that iterates the UTF-8 lines of a Reader.
-- 
2.43.0


From 31f900c59189d6b4f12f69c442918dfa1ba89d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 66/67] fix: To, AnyTo, ToBigOps and ReflectTo refuse to
 convert a nil big number to another type, instead of crashing or giving the
 string <nil>

---
 conv/conv.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/conv/conv.go b/conv/conv.go
index 9157a54..a0e11c5 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -16,6 +16,7 @@ import (
 var (
 	errMsg                    = "The %T value of %s cannot be converted to %s"
 	errONonNilMsg             = "The target value of type %T cannot be nil"
+	errINonNilMsg             = "The source value of type %T cannot be nil, unless the target is the same type"
 	errAnyToInvalidIMsg       = "AnyTo cannot convert the input type %s"
 	errReflectToInvalidSrc    = fmt.Errorf("ReflectTo source cannot be Invalid")
 	errReflectToInvalidTgt    = fmt.Errorf("ReflectTo target cannot be Invalid")
@@ -1068,6 +1069,11 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 		return nil
 	}
 
+	// A nil big type has no value to convert
+	if reflect.IsBigPtr(ityp) && ival.IsNil() {
+		return fmt.Errorf(errINonNilMsg, i)
+	}
+
 	// Construct a string of the input and output types (eg "int8int" means int8 -> int)
 	// Use the string as an index into the convertFromTo map
 	return convertFromTo[ityp.String()+otyp.String()](any(ival.Interface()), any(oval.Interface()))
@@ -1163,6 +1169,11 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		return nil
 	}
 
+	// A nil big type has no value to convert
+	if reflect.IsBigPtr(ityp) && ival.IsNil() {
+		return fmt.Errorf(errINonNilMsg, i)
+	}
+
 	// Types differ, lookup conversion using types and execute it, returning result
 	return convertFromTo[ityp.String()+otyp.String()](ival.Interface(), oval.Interface())
 }
@@ -1206,6 +1217,11 @@ func ReflectTo(i, o goreflect.Value) error {
 		return fmt.Errorf(errReflectToTgtBigTypeMsg, o.Interface())
 	}
 
+	// A nil big type has no value to convert
+	if reflect.IsBigPtr(ityp) && i.IsNil() {
+		return fmt.Errorf(errINonNilMsg, i.Interface())
+	}
+
 	// Convert output to a base type
 	ob := reflect.ValueToBaseType(o)
 
-- 
2.43.0


From 965d991d299fc07d11bcfdbef32178c02df7a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:01 +0000
Subject: [PATCH 67/67] fix: count runes, not bytes, in the error of a string
 or line that was cut short

---
 io/writer/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/writer/gen.go b/io/writer/gen.go
index d00c8ee..ff52c57 100755
--- a/io/writer/gen.go
+++ b/io/writer/gen.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"runtime"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -88,7 +89,7 @@ func IOWriterAsStringsGen(dst io.Writer) func(string) error {
 		if n, err := dst.Write(p); err != nil {
 			return err
 		} else if n < len(p) {
-			return fmt.Errorf(errIOStringWriterMsg, n, len(val), len(p))
+			return fmt.Errorf(errIOStringWriterMsg, n, utf8.RuneCountInString(val), len(p))
 		}
 
 		return nil
@@ -112,7 +113,7 @@ func IOWriterAsLinesGen(dst io.Writer) func(string) error {
 		if n, err := dst.Write(p); err != nil {
 			return err
 		} else if n < len(p) {
-			return fmt.Errorf(errIOStringWriterMsg, n, len(valEOL), len(p))
+			return fmt.Errorf(errIOStringWriterMsg, n, utf8.RuneCountInString(valEOL), len(p))
 		}
 
 		return nil
-- 
2.43.0

