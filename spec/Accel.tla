-------------------------------- MODULE Accel --------------------------------
(***************************************************************************)
(* n p on the curve -x^2 + y^2 = 1 + d x^2 y^2 modulo m: the definition is *)
(* double-and-add with the affine addition law; at run time TLC uses       *)
(* Accel.java (projective, BigInteger).  MCAccel compares the two.         *)
(***************************************************************************)
EXTENDS BigNum

AffAdd(p, q, m, d) ==
  LET Mul(a, b) == BMulMod(a, b, m)
      xy == Mul(p[1], q[2])  yx == Mul(p[2], q[1])
      xx == Mul(p[1], q[1])  yy == Mul(p[2], q[2])
      k  == Mul(d, Mul(xx, yy))
  IN  << Mul(BAddMod(xy, yx, m), BInvMod(BAddMod(<< 1 >>, k, m), m)),
         Mul(BAddMod(yy, xx, m), BInvMod(BSubMod(<< 1 >>, k, m), m)) >>

RECURSIVE AffMulFrom(_, _, _, _, _, _)
AffMulFrom(n, p, i, acc, m, d) ==
  IF i < 0 THEN acc
  ELSE LET a2 == AffAdd(acc, acc, m, d)
       IN  AffMulFrom(n, p, i - 1, IF BBit(n, i) = 1 THEN AffAdd(a2, p, m, d) ELSE a2, m, d)
AffMulDef(n, p, m, d) == AffMulFrom(n, p, BBitLen(n) - 1, << << >>, << 1 >> >>, m, d)
AffMul(n, p, m, d) == AffMulDef(n, p, m, d)
=============================================================================
