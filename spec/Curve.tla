-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* The twisted Edwards curve E: -x^2 + y^2 = 1 + D x^2 y^2 over GF(P) with *)
(* D a non-square, of order 8 L.  The points of the specification are      *)
(* affine pairs << x, y >>; the addition law is complete.                  *)
(***************************************************************************)
EXTENDS Field, Accel

CONSTANT D          \* the curve constant d
CONSTANT L          \* the prime order of the Ristretto group
CONSTANT BasePoint  \* << x, y >> of order L

OnCurve(p) == LET x2 == FSq(p[1])  y2 == FSq(p[2])
              IN  FSub(y2, x2) = FAdd(FOne, FMul(D, FMul(x2, y2)))

Neutral == << FZero, FOne >>

EdAdd(p, q) ==
  LET xy == FMul(p[1], q[2])  yx == FMul(p[2], q[1])
      xx == FMul(p[1], q[1])  yy == FMul(p[2], q[2])
      k  == FMul(D, FMul(xx, yy))
  IN  << FDiv(FAdd(xy, yx), FAdd(FOne, k)), FDiv(FAdd(yy, xx), FSub(FOne, k)) >>
EdNeg(p) == << FNeg(p[1]), p[2] >>
EdSub(p, q) == EdAdd(p, EdNeg(q))
EdDbl(p) == EdAdd(p, p)

\* n p by double-and-add, n a number of BigNum (see module Accel)
EdMul(n, p) == AffMul(n, p, P, D)

\* the 4-torsion, and the coset of p modulo it: what p + t is for t in E[4]
T1 == << FZero, FMinusOne >>
T2 == << FI, FZero >>
T3 == << FNeg(FI), FZero >>
Torsion4 == { Neutral, T1, T2, T3 }
Rot(p) == << FMul(FI, p[2]), FMul(FI, p[1]) >>         \* p + T2
Flip(p) == << FNeg(p[1]), FNeg(p[2]) >>                \* p + T1
Coset(p) == { p, Flip(p), Rot(p), Flip(Rot(p)) }

(***************************************************************************)
(* Projective observations.  The code holds points as (X:Y:Z:T) etc.; a    *)
(* quadruple denotes the affine point (X/Z, Y/Z).                          *)
(***************************************************************************)
ExtValid(X, Y, Z, T) ==
  /\ Z # FZero
  /\ FMul(X, Y) = FMul(Z, T)
  /\ LET X2 == FSq(X)  Y2 == FSq(Y)  Z2 == FSq(Z)
     IN  FMul(FSub(Y2, X2), Z2) = FAdd(FSq(Z2), FMul(D, FMul(X2, Y2)))
ExtIs(X, Y, Z, p) == X = FMul(p[1], Z) /\ Y = FMul(p[2], Z)
ExtInCoset(X, Y, Z, p) == \E q \in Coset(p) : ExtIs(X, Y, Z, q)
=============================================================================
