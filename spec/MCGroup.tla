------------------------------- MODULE MCGroup -------------------------------
(***************************************************************************)
(* The Ristretto group on a toy curve, as a state machine over two         *)
(* registers holding representatives in 2E, with the abstract group        *)
(* Z/LZ as a ghost.  Exhaustive: every reachable pair of representatives.  *)
(* The invariants say that the concrete operations refine Z/LZ, that       *)
(* encodings are canonical, and that equality and decoding are exact.      *)
(***************************************************************************)
EXTENDS Formulas, TLC, FiniteSets

CONSTANTS PInt, DInt, LInt, IInt, BXInt, BYInt, RInt   \* the toy parameters
Toy_P == BFromInt(PInt)
Toy_D == BFromInt(DInt)
Toy_L == BFromInt(LInt)
Toy_I == BFromInt(IInt)
Toy_Base == << BFromInt(BXInt), BFromInt(BYInt) >>
Toy_R == BFromInt(RInt)
Toy_NB == 2

VARIABLES reg, g
vars == << reg, g >>
R == 1..2

Fld == { BFromInt(n) : n \in 0..(PInt - 1) }
Lat == [k \in 0..(LInt - 1) |-> EdMul(BFromInt(k), BasePoint)]   \* k B
Cls == [k \in 0..(LInt - 1) |-> Coset(Lat[k])]
Enc == [k \in 0..(LInt - 1) |-> Encode(Lat[k])]
Even == UNION { Cls[k] : k \in 0..(LInt - 1) }
Dlog(q) == CHOOSE k \in 0..(LInt - 1) : q \in Cls[k]

Put(r, q, k) == reg' = [reg EXCEPT ![r] = q] /\ g' = [g EXCEPT ![r] = k % LInt]

Init == reg = [r \in R |-> Neutral] /\ g = [r \in R |-> 0]
SetBase == \E r \in R : Put(r, BasePoint, 1)
Add == \E r, a, b \in R : Put(r, EdAdd(reg[a], reg[b]), g[a] + g[b])
Sub == \E r, a, b \in R : Put(r, EdSub(reg[a], reg[b]), g[a] - g[b] + LInt)
Neg == \E r, a \in R : Put(r, EdNeg(reg[a]), LInt - g[a])
Dbl == \E r, a \in R : Put(r, EdDbl(reg[a]), 2 * g[a])
Mul == \E r, a \in R, k \in 0..(LInt - 1) : Put(r, EdMul(BFromInt(k), reg[a]), k * g[a])
Rerand == \E r \in R : \E q \in Coset(reg[r]) : Put(r, q, g[r])
Recode == \E r \in R : Put(r, Decode(Encode(reg[r])), g[r])
Next == SetBase \/ Add \/ Sub \/ Neg \/ Dbl \/ Mul \/ Rerand \/ Recode
Spec == Init /\ [][Next]_vars

Refines == \A r \in R : reg[r] \in Cls[g[r]] /\ OnCurve(reg[r])
EncodingCanonical == \A r \in R : Encode(reg[r]) = Enc[g[r]]
EncodingFaithful == (Encode(reg[1]) = Encode(reg[2])) <=> (g[1] = g[2])
EqualityExact == EqExt(ExtOf(reg[1], FOne), ExtOf(reg[2], << 3 >>)) <=> (g[1] = g[2])
OrderL == \A r \in R : EdMul(L, reg[r]) \in Torsion4

(***************************************************************************)
(* Facts about the whole toy field and curve, decided once.                *)
(***************************************************************************)
ASSUME ToyParameters ==
  /\ FSq(FI) = FMinusOne /\ ~IsSquare(D) /\ FSq(SqrtADm1) = FSub(FNeg(D), FOne)
  /\ Cardinality(Even) = 4 * LInt
  /\ Cardinality({ q \in Fld \X Fld : OnCurve(q) }) = 8 * LInt
  /\ Even = { EdDbl(q) : q \in { q \in Fld \X Fld : OnCurve(q) } }
ASSUME TorsionIsCoset ==
  \A q \in Even : Coset(q) = { EdAdd(q, t) : t \in Torsion4 }
ASSUME SqrtRatioExact ==
  \A u, v \in Fld : LET sr == SqrtRatio(u, v) IN
     /\ ~IsNeg(sr[2])
     /\ v # FZero => FMul(v, FSq(sr[2])) = IF sr[1] THEN u ELSE FMul(FI, u)
     /\ v # FZero => (sr[1] <=> \E w \in Fld : FMul(v, FSq(w)) = u)
\* all strings of the toy encoding length: accepted iff they are an element's encoding
ASSUME DecodingExact ==
  /\ \A n \in 0..(2 * PInt + 40) :
       LET q == Decode(BFromInt(n)) IN
         IF \E k \in 0..(LInt - 1) : Enc[k] = BFromInt(n)
         THEN q # << >> /\ q \in Even /\ Encode(q) = BFromInt(n)
         ELSE q = << >>
  /\ Cardinality({ Enc[k] : k \in 0..(LInt - 1) }) = LInt
ASSUME MapTotal == \A t \in Fld : Map(t) \in Even /\ Map(t) = Map(FNeg(t))
\* the inverse finds every non-negative preimage and nothing else, at most 8
ASSUME PreimagesExact ==
  \A k \in 0..(LInt - 1) : \A q \in Cls[k] :
     LET S == { r \in Fld : ~IsNeg(r) /\ Map(r) \in Cls[k] }
     IN  Preimages(q) = S /\ Cardinality(S) <= 8
ASSUME QuarticExact ==
  /\ \A s, t \in Fld : OnQuartic(s, t) /\ t # FZero => FromQuartic(s, t) \in Even
  /\ \A q \in Even : ToQuartic(q) =
       { st \in Fld \X Fld : OnQuartic(st[1], st[2]) /\ st[2] # FZero
                              /\ FAdd(FOne, FSq(st[1])) # FZero
                              /\ FromQuartic(st[1], st[2]) = q }
=============================================================================
