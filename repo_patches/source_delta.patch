From 6c626d5947869b0e019646efd02e408329ba736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:01 +0000
Subject: [PATCH 1/4] fix: UnmarshalText no longer panics on text that decodes
 to more than 32 bytes

base64's Decode was handed a 32-byte destination, so any text of 44 or more
characters (for instance a 64-character hex scalar) made Point.UnmarshalText
and Scalar.UnmarshalText panic with an index out of range instead of
returning an error.
---
 ristretto.go | 4 +++-
 scalar.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..7601897 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,15 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	buf := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(buf, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, buf[:32])
 	return nil
 }
 
diff --git a/scalar.go b/scalar.go
index 10c0cfc..defa9f6 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,15 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	dec := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(dec, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], dec)
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From 4452742ff5b94095f7f8fddeff9fdcdb7bc6291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:41 +0000
Subject: [PATCH 2/4] fix: RistrettoElligator2Inverse also reports sqrt(i/d) as
 a preimage of the neutral element

Elligator2 maps the positive field elements 0, sqrt(i*d) and sqrt(i/d)
to the neutral element through s=0, but the inverse only reported the
first two of them (both twice).  The function is documented to compute
all positive preimages.
---
 edwards25519/elligator.go     | 7 +++++++
 edwards25519/field_generic.go | 6 ++++++
 edwards25519/field_radix51.go | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/edwards25519/elligator.go b/edwards25519/elligator.go
index b544cdf..60e5358 100644
--- a/edwards25519/elligator.go
+++ b/edwards25519/elligator.go
@@ -46,6 +46,13 @@ func (p *ExtendedPoint) RistrettoElligator2Inverse(fes *[8]FieldElement) uint8 {
 		setMask |= uint8(jc.elligator2Inverse(&fes[2*j+1]) << uint(2*j+1))
 	}
 
+	// Special case: X=0 or Y=0, that is: p is equivalent to 0.  Elligator2
+	// also maps sqrt(i/d) to 0, which is the one preimage we have not found
+	// yet.  It takes the place of the duplicate we found for the repeated
+	// point on the Jacobi quartic.  (See ToJacobiQuarticRistretto.)
+	XorYisZero := 1 - (p.X.IsNonZeroI() & p.Y.IsNonZeroI())
+	fes[2].ConditionalSet(&feSqrtIOverD, XorYisZero)
+
 	return setMask
 }
 
diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..2963f96 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -78,6 +78,12 @@ var (
 		-1348074, -30782278, -9245017, 26167231, 1494357,
 	}
 
+	// sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		23733568, 11663665, -8339769, -16610452, 17576933,
+		-11883678, 28147949, -5559112, 9046729, 201449,
+	}
+
 	// 1 / sqrt(1+d)
 	feInvSqrt1pD = FieldElement{
 		-29089260, 4791796, 20332186, -14900950, -20532188,
diff --git a/edwards25519/field_radix51.go b/edwards25519/field_radix51.go
index 0d3b40d..b5e9e35 100644
--- a/edwards25519/field_radix51.go
+++ b/edwards25519/field_radix51.go
@@ -79,6 +79,12 @@ var (
 		3883177008057528, 2352084440532925,
 	}
 
+	// sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		782735331960128, 1137091241098951, 1454299700540388,
+		1878734150664428, 13519022590664,
+	}
+
 	// 1/sqrt(d+1)
 	feInvSqrt1pD = FieldElement{
 		321571956990465, 1251814006996634, 2226845496292387,
-- 
2.43.0


From d344d8d41ec0ec78d7b4b31305dd3a80ce999b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:34 +0000
Subject: [PATCH 3/4] fix: NielsPoint.Neg computes -q also when the receiver is
 q itself

---
 edwards25519/table.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edwards25519/table.go b/edwards25519/table.go
index 09e431a..05720e1 100644
--- a/edwards25519/table.go
+++ b/edwards25519/table.go
@@ -33,8 +33,7 @@ func (p *NielsPoint) ConditionalSet(q *NielsPoint, b int32) *NielsPoint {
 
 // Set p to -q.  Returns p.
 func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
-	p.YMinusX.Set(&q.YPlusX)
-	p.YPlusX.Set(&q.YMinusX)
+	p.YPlusX, p.YMinusX = q.YMinusX, q.YPlusX
 	p.XY2D.Neg(&q.XY2D)
 	return p
 }
-- 
2.43.0


From 8fd31c425a10444f7df726db031c8527801c40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:46 +0000
Subject: [PATCH 4/4] fix: generic FieldElement.BytesInto no longer rewrites
 the limbs of its receiver

With the 32-bit field implementation BytesInto reduced fe in place, so that
reading a point (Bytes, IsNegativeI, Lizard, ...) wrote to it. Worse: the
limbs it left behind are unsigned and so twice as large as those other
operations leave, and SetRistretto followed by Add overflowed the 32-bit
multiplication by 19 in Mul, giving wrong points.
---
 edwards25519/field_generic.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index 2963f96..f1917d4 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -255,6 +255,13 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 
 // Write fe to s in little endian.  Returns fe.
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
+	fe.packInto(s)
+	return fe
+}
+
+// Writes fe as little endian number modulo 2^255-19 to s.  Reduces the copy
+// of fe it is called on, so that the limbs of the original are left alone.
+func (fe FieldElement) packInto(s *[32]byte) {
 	var carry [10]int32
 
 	q := (19*fe[9] + (1 << 24)) >> 25
@@ -333,7 +340,6 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0

