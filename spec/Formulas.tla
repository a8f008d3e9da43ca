------------------------------ MODULE Formulas ------------------------------
(***************************************************************************)
(* The coordinate systems package edwards25519 computes in, and the        *)
(* formulas between them, over the field of module Field:                  *)
(*   extended  (X:Y:Z:T)    x = X/Z, y = Y/Z, X Y = Z T                    *)
(*   completed ((X:Z),(Y:T)) x = X/Z, y = Y/T                              *)
(*   projective (X:Y:Z)     x = X/Z, y = Y/Z                               *)
(*   Niels     (y+x, y-x, 2dxy)                                            *)
(* MCFormulas shows that each denotes what it should on the toy curves.    *)
(***************************************************************************)
EXTENDS Ristretto

AffExt(e) == << FDiv(e[1], e[3]), FDiv(e[2], e[3]) >>
AffComp(c) == << FDiv(c[1], c[3]), FDiv(c[2], c[4]) >>
AffProj(q) == << FDiv(q[1], q[3]), FDiv(q[2], q[3]) >>
AffNiels(n) == LET h == FInv(FTwo) IN << FMul(h, FSub(n[1], n[2])), FMul(h, FAdd(n[1], n[2])) >>

\* the extended representation of p with Z = z
ExtOf(p, z) == << FMul(p[1], z), FMul(p[2], z), z, FMul(FMul(p[1], p[2]), z) >>
NielsOf(p) == << FAdd(p[2], p[1]), FSub(p[2], p[1]), FMul(FTwo, FMul(D, FMul(p[1], p[2]))) >>
\* a valid completed form has X/Z, Y/T with Z, T # 0; extended forms derive from it
CompToExt(c) == << FMul(c[1], c[4]), FMul(c[2], c[3]), FMul(c[3], c[4]), FMul(c[1], c[2]) >>
CompToProj(c) == << FMul(c[1], c[4]), FMul(c[2], c[3]), FMul(c[3], c[4]) >>
ExtToProj(e) == << e[1], e[2], e[3] >>

AddExt(q, r) ==
  LET a == FMul(FSub(q[2], q[1]), FSub(r[2], r[1]))
      b == FMul(FAdd(q[2], q[1]), FAdd(r[2], r[1]))
      c == FMul(FMul(FTwo, D), FMul(q[4], r[4]))
      e == FMul(FTwo, FMul(q[3], r[3]))
  IN  << FSub(b, a), FAdd(b, a), FAdd(e, c), FSub(e, c) >>
SubExt(q, r) ==
  LET a == FMul(FSub(q[2], q[1]), FAdd(r[2], r[1]))
      b == FMul(FAdd(q[2], q[1]), FSub(r[2], r[1]))
      c == FMul(FMul(FTwo, D), FMul(q[4], r[4]))
      e == FMul(FTwo, FMul(q[3], r[3]))
  IN  << FSub(b, a), FAdd(b, a), FSub(e, c), FAdd(e, c) >>
AddNiels(q, n) ==
  LET a == FMul(FSub(q[2], q[1]), n[2])
      b == FMul(FAdd(q[2], q[1]), n[1])
      c == FMul(n[3], q[4])
      e == FMul(FTwo, q[3])
  IN  << FSub(b, a), FAdd(b, a), FAdd(e, c), FSub(e, c) >>
SubNiels(q, n) ==
  LET a == FMul(FSub(q[2], q[1]), n[1])
      b == FMul(FAdd(q[2], q[1]), n[2])
      c == FMul(n[3], q[4])
      e == FMul(FTwo, q[3])
  IN  << FSub(b, a), FAdd(b, a), FSub(e, c), FAdd(e, c) >>
DblProj(q) ==
  LET xx == FSq(q[1])  yy == FSq(q[2])
      y == FAdd(yy, xx)  z == FSub(yy, xx)
  IN  << FSub(FSq(FAdd(q[1], q[2])), y), y, z, FSub(FMul(FTwo, FSq(q[3])), z) >>
\* the doubling of extended points negates all of DblProj's coordinates but x and z
DblExt(q) ==
  LET xx == FSq(q[1])  yy == FSq(q[2])
      z == FSub(yy, xx)
  IN  << FSub(FSub(FSq(FAdd(q[1], q[2])), xx), yy), FSub(FNeg(xx), yy), z,
         FSub(z, FMul(FTwo, FSq(q[3]))) >>

\* equality of elements on coordinates
EqExt(p, q) == FMul(p[1], q[2]) = FMul(q[1], p[2]) \/ FMul(p[1], q[1]) = FMul(p[2], q[2])

(***************************************************************************)
(* Encoding of an extended point and decoding with one inverse square root *)
(* as the code computes them: InvSqrt yields some root of 1/a, or 0 for 0. *)
(* rt picks the root's sign, over which the result must not depend.        *)
(***************************************************************************)
InvSqrtOf(a, rt) == LET s == SqrtRatio(FOne, a)[2] IN IF rt THEN s ELSE FNeg(s)
EncodeExt(e, rt) ==
  LET u1 == FMul(FSub(e[3], e[2]), FAdd(e[3], e[2]))
      u2 == FMul(e[1], e[2])
      isr == InvSqrtOf(FMul(u1, FSq(u2)), rt)
      i1 == FMul(isr, u1)
      i2 == FMul(isr, u2)
      zinv == FMul(FMul(i1, i2), e[4])
      keep == ~IsNeg(FMul(zinv, e[4]))
      nx == IF keep THEN e[1] ELSE FMul(FI, e[2])
      ny == IF keep THEN e[2] ELSE FMul(FI, e[1])
      den == IF keep THEN i2 ELSE FMul(InvSqrtAmD, i1)
      ny2 == IF IsNeg(FMul(nx, zinv)) THEN FNeg(ny) ELSE ny
  IN  FAbs(FMul(FSub(e[3], ny2), den))

(***************************************************************************)
(* The four quartic points the code derives from an extended point, with   *)
(* one inverse square root (zero for X = 0 or Y = 0, patched afterwards).  *)
(***************************************************************************)
QuarticsExt(e, rt) ==
  LET X == e[1]  Y == e[2]  Z == e[3]
      dz == FSub(FSq(Z), FSq(Y))
      gamma == InvSqrtOf(FMul(FMul(FSq(FSq(Y)), FSq(X)), dz), rt)
      den == FMul(gamma, FSq(Y))
      sX == FMul(den, FSub(Z, Y))
      spX == FMul(den, FAdd(Z, Y))
      c0 == FMul(FTwo, InvSqrtAmD)
      den2 == FMul(FMul(FNeg(dz), FMul(FI, InvSqrtAmD)), gamma)
      iZ == FMul(FI, Z)
      sY == FMul(den2, FSub(iZ, X))
      spY == FMul(den2, FAdd(iZ, X))
  IN  IF X = FZero \/ Y = FZero
      THEN { << FZero, FOne >>, << FOne, FMul(FI, c0) >>, << FMinusOne, FMul(FI, c0) >> }
      ELSE { << FMul(sX, X), FMul(FMul(c0, Z), sX) >>,
             << FNeg(FMul(spX, X)), FMul(FMul(c0, Z), spX) >>,
             << FMul(sY, Y), FMul(FMul(c0, iZ), sY) >>,
             << FNeg(FMul(spY, Y)), FMul(FMul(c0, iZ), spY) >> }
=============================================================================
