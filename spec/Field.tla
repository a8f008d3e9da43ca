-------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* The prime field GF(P), P = 5 mod 8.  Ristretto255 has P = 2^255 - 19;   *)
(* the toy instances have a P small enough to enumerate the whole field.   *)
(* Elements are numbers of module BigNum below P.                          *)
(***************************************************************************)
EXTENDS BigNum

CONSTANT P          \* the prime
CONSTANT SqrtM1     \* the square root of -1 called i

FZero == << >>
FOne == << 1 >>
FTwo == << 2 >>
FAdd(a, b) == BAddMod(a, b, P)
FSub(a, b) == BSubMod(a, b, P)
FNeg(a) == BNegMod(a, P)
FMul(a, b) == BMulMod(a, b, P)
FSq(a) == BMulMod(a, a, P)
FInv(a) == BInvMod(a, P)                       \* 0 for 0
FDiv(a, b) == FMul(a, FInv(b))
FPow(a, e) == BPowMod(a, e, P)
FMinusOne == FNeg(FOne)
FI == SqrtM1

IsNeg(a) == BBit(a, 0) = 1                     \* "negative": odd representative
FAbs(a) == IF IsNeg(a) THEN FNeg(a) ELSE a

HalfExp == BShr(BSub(P, FOne), 1)              \* (P-1)/2
RootExp == BShr(BAdd(P, << 3 >>), 3)           \* (P+3)/8
E22523  == BShr(BSub(P, << 5 >>), 3)           \* (P-5)/8, 2^252-3 for ristretto255

IsSquare(a) == a = FZero \/ FPow(a, HalfExp) = FOne

\* the non-negative square root of the square a
FSqrt(a) == LET c == FPow(a, RootExp)
            IN  FAbs(IF FSq(c) = a THEN c ELSE FMul(FI, c))

\* is r one of the two square roots of a (not necessarily the even one)
IsRootOf(r, a) == FSq(r) = a

(***************************************************************************)
(* SQRT_RATIO_M1 of RFC 9496: << u/v is a square, |sqrt(u/v)| or           *)
(* |sqrt(i u/v)| >>, with <<TRUE, 0>> for u = 0 and <<FALSE, 0>> for v = 0 *)
(***************************************************************************)
SqrtRatio(u, v) ==
  IF u = FZero THEN << TRUE, FZero >>
  ELSE IF v = FZero THEN << FALSE, FZero >>
  ELSE LET q == FDiv(u, v)
       IN  IF IsSquare(q) THEN << TRUE, FSqrt(q) >>
           ELSE << FALSE, FSqrt(FMul(FI, q)) >>
=============================================================================
