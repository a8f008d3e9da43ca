------------------------------ MODULE Ristretto ------------------------------
(***************************************************************************)
(* The Ristretto group: 2E / E[4], of prime order L, with its encoding,    *)
(* decoding and Elligator map as in RFC 9496, and the Elligator inverse.   *)
(* A group element is given by any of its four representatives << x, y >>. *)
(***************************************************************************)
EXTENDS Curve

CONSTANT SqrtADm1   \* the square root of -D-1 that fixes the sign of MAP
CONSTANT NB         \* bytes of an encoding: 32, or 1 in the toy instances

SameElement(p, q) == q \in Coset(p)

OneMinusDSq == FSub(FOne, FSq(D))
DMinusOneSq == FSq(FSub(D, FOne))
InvSqrtAmD  == FInv(SqrtADm1)

\* field element s of the canonical encoding of the element of p (p in 2E)
Encode(p) ==
  LET x == p[1]  y == p[2]  t == FMul(x, y)
      u1 == FMul(FAdd(FOne, y), FSub(FOne, y))
      isr == SqrtRatio(FOne, FMul(u1, FSq(t)))[2]
      den1 == FMul(isr, u1)
      den2 == FMul(isr, t)
      zinv == FMul(FMul(den1, den2), t)
      rot == IsNeg(FMul(t, zinv))
      x1 == IF rot THEN FMul(FI, y) ELSE x
      y1 == IF rot THEN FMul(FI, x) ELSE y
      den == IF rot THEN FMul(den1, InvSqrtAmD) ELSE den2
      y2 == IF IsNeg(FMul(x1, zinv)) THEN FNeg(y1) ELSE y1
  IN  FAbs(FMul(den, FSub(FOne, y2)))

\* the representative decoded from the number n, or << >> if n is no encoding
Decode(n) ==
  IF ~BLt(n, P) \/ IsNeg(n) THEN << >>
  ELSE LET ss == FSq(n)
           u1 == FSub(FOne, ss)
           u2 == FAdd(FOne, ss)
           v  == FSub(FNeg(FMul(D, FSq(u1))), FSq(u2))
           sr == SqrtRatio(FOne, FMul(v, FSq(u2)))
           dx == FMul(sr[2], u2)
           dy == FMul(FMul(sr[2], dx), v)
           x == FAbs(FMul(FMul(FTwo, n), dx))
           y == FMul(u1, dy)
       IN  IF ~sr[1] \/ IsNeg(FMul(x, y)) \/ y = FZero THEN << >> ELSE << x, y >>

\* the Elligator map MAP of RFC 9496 on the field element t
Map(t) ==
  LET r == FMul(FI, FSq(t))
      u == FMul(FAdd(r, FOne), OneMinusDSq)
      v == FMul(FSub(FMinusOne, FMul(r, D)), FAdd(r, D))
      sr == SqrtRatio(u, v)
      s == IF sr[1] THEN sr[2] ELSE FNeg(FAbs(FMul(sr[2], t)))
      c == IF sr[1] THEN FMinusOne ELSE r
      n == FSub(FMul(FMul(c, FSub(r, FOne)), DMinusOneSq), v)
      w0 == FMul(FMul(FTwo, s), v)
      w1 == FMul(n, SqrtADm1)
      w2 == FSub(FOne, FSq(s))
      w3 == FAdd(FOne, FSq(s))
  IN  << FDiv(w0, w1), FDiv(w2, w3) >>

(***************************************************************************)
(* The associated Jacobi quartic t^2 = s^4 + 2 (1-D)/(1+D) s^2 + 1 and its *)
(* map to 2E.                                                              *)
(***************************************************************************)
QuarticA == FDiv(FMul(FTwo, FSub(FOne, D)), FAdd(FOne, D))
OnQuartic(s, t) == FSq(t) = FAdd(FAdd(FSq(FSq(s)), FMul(QuarticA, FSq(s))), FOne)
FromQuartic(s, t) == << FDiv(FMul(FTwo, s), FMul(t, SqrtADm1)),
                        FDiv(FSub(FOne, FSq(s)), FAdd(FOne, FSq(s))) >>
\* the points of the quartic above the point q of 2E (none above (0,-1))
ToQuartic(q) ==
  IF q = Neutral THEN { << FZero, FOne >>, << FZero, FMinusOne >> }
  ELSE IF q = T1 THEN {}
  ELSE LET s == FSqrt(FDiv(FSub(FOne, q[2]), FAdd(FOne, q[2])))
           t == FDiv(FMul(FTwo, s), FMul(q[1], SqrtADm1))
       IN  { << s, t >>, << FNeg(s), FNeg(t) >> }

(***************************************************************************)
(* The non-negative Elligator preimages of the element of p.  For (s,t) on *)
(* the quartic with a = (t+1)(D+1)/(D-1), a preimage r0 has                *)
(* i r0^2 = (s^2+a)/(s^2-a) or its inverse, according to the sign of s;    *)
(* three further candidates belong to s = 0.                               *)
(***************************************************************************)
DRatio == FDiv(FAdd(D, FOne), FSub(D, FOne))
PreCand(st) ==
  LET s2 == FSq(st[1])
      a == FMul(FAdd(st[2], FOne), DRatio)
      n1 == FAdd(s2, a)
      n2 == FSub(s2, a)
      r == IF IsNeg(st[1]) THEN FDiv(n2, n1) ELSE FDiv(n1, n2)
      z == FNeg(FMul(FI, r))
  IN  IF IsSquare(z) THEN { FSqrt(z) } ELSE {}
SqrtID == FSqrt(FMul(FI, D))
SqrtIoD == FSqrt(FDiv(FI, D))
Preimages(p) ==
  LET cs == UNION { PreCand(st) : st \in UNION { ToQuartic(q) : q \in Coset(p) } }
            \union { FZero, SqrtID, SqrtIoD }
  IN  { r \in cs : SameElement(Map(r), p) }

\* encodings as byte strings (hex)
EncodeHex(p) == BToLE(Encode(p), NB)
DecodeHex(h) == Decode(BFromLE(h))
\* Elligator on a byte string: the low bits below the bit length of P
MapHex(h) == Map(BMod(BLow(BFromLE(h), BBitLen(P)), P))
=============================================================================
