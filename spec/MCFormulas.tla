----------------------------- MODULE MCFormulas -----------------------------
(***************************************************************************)
(* The coordinate formulas of module Formulas denote the affine operations *)
(* on every pair of points of a toy curve (odd points included) and        *)
(* several scalings; encoding from any extended representative is the      *)
(* canonical one.  A state is a pair of points of E.                       *)
(***************************************************************************)
EXTENDS Formulas, TLC, FiniteSets
CONSTANTS PInt, DInt, LInt, IInt, BXInt, BYInt, RInt, Scales
Toy_P == BFromInt(PInt)
Toy_D == BFromInt(DInt)
Toy_L == BFromInt(LInt)
Toy_I == BFromInt(IInt)
Toy_Base == << BFromInt(BXInt), BFromInt(BYInt) >>
Toy_R == BFromInt(RInt)
Toy_NB == 2
Fld == { BFromInt(n) : n \in 0..(PInt - 1) }
E == TLCEval({ z \in Fld \X Fld : OnCurve(z) })
Even == TLCEval({ EdDbl(z) : z \in E })

VARIABLES p, q, n
Init == p \in E /\ q = Neutral /\ n = 0
Next == n = 0 /\ n' = 1 /\ q' \in E /\ p' = p
Spec == Init /\ [][Next]_<< p, q, n >>

GoodExt(e, a) == ExtValid(e[1], e[2], e[3], e[4]) /\ AffExt(e) = a
GoodComp(c, a) == /\ c[3] # FZero /\ c[4] # FZero
                  /\ AffComp(c) = a
                  /\ GoodExt(CompToExt(c), a)
                  /\ AffProj(CompToProj(c)) = a
Denote ==
  \A k \in Scales : LET ep == ExtOf(p, << 1 >>)  eq == ExtOf(q, << k >>) IN
    /\ GoodComp(AddExt(ep, eq), EdAdd(p, q))
    /\ GoodComp(SubExt(ep, eq), EdSub(p, q))
    /\ GoodComp(AddNiels(eq, NielsOf(p)), EdAdd(q, p))
    /\ GoodComp(SubNiels(eq, NielsOf(p)), EdSub(q, p))
    /\ GoodComp(DblExt(eq), EdDbl(q))
    /\ GoodComp(DblProj(ExtToProj(eq)), EdDbl(q))
    /\ AffNiels(NielsOf(p)) = p
EncodeAny ==
  q \in Even => \A k \in Scales : \A rt \in BOOLEAN : EncodeExt(ExtOf(q, << k >>), rt) = Encode(q)
EqAny == p \in Even /\ q \in Even => \A k \in Scales : EqExt(ExtOf(p, << 1 >>), ExtOf(q, << k >>)) <=> SameElement(p, q)
QuarticAny ==
  q \in Even => \A k \in Scales : \A rt \in BOOLEAN :
    LET qs == QuarticsExt(ExtOf(q, << k >>), rt) IN
      /\ \A st \in qs : OnQuartic(st[1], st[2])
      /\ { FromQuartic(st[1], st[2]) : st \in qs } = Coset(q) \ (IF q \in Torsion4 THEN { T1 } ELSE {})
=============================================================================
