-------------------------------- MODULE Carry --------------------------------
(***************************************************************************)
(* Arithmetic modulo L on limbs, as the scalars of the library do it: Sub  *)
(* ripples a borrow through the limbs and then adds L, masked by the last  *)
(* borrow, rippling a carry; Add adds and subtracts L; reading bytes       *)
(* subtracts L once.  What a chain does at a limb depends only on the      *)
(* limb's class: for a sum whether a+b is below, at, or above Base-1, for  *)
(* a difference whether a is below, at, or above b.                        *)
(*                                                                         *)
(* Checked on all operands of a toy instance, limb by limb: results exact  *)
(* and reduced (Exact), carries functions of the classes (ByClass).        *)
(* Variant: a mistake TLC must find:                                       *)
(*   "lost"  one limb of the second chain forgets its carry                *)
(*   "mask"  the limbs of L are added only below the top                   *)
(*   "eq"    equal limbs stop a borrow                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Base, K, LInt, Variant    \* K limbs, Base^(K-1) < LInt < Base^K / 2

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE Base * Pow(k - 1)
Limb(n, k) == (n \div Pow(k - 1)) % Base
Val(s) == LET F[k \in 0..K] == IF k = 0 THEN 0 ELSE F[k - 1] + s[k] * Pow(k - 1) IN F[K]
Limbs(n) == [k \in 1..K |-> Limb(n, k)]

Rel(x, y) == IF x < y THEN "<" ELSE IF x = y THEN "=" ELSE ">"
SumClass(x, y) == Rel(x + y, Base - 1)
SubClass(x, y) == Rel(x, y)
\* the carry or borrow out of a limb, by its class
CarryOut(cl, c) == IF cl = ">" \/ (cl = "=" /\ c = 1) THEN 1 ELSE 0
BorrowOut(cl, c) == IF cl = "<" \/ (cl = "=" /\ c = 1) THEN 1 ELSE 0

VARIABLES op, a, b, x, y, k, c, st, pc
vars == << op, a, b, x, y, k, c, st, pc >>
\* x: the limbs worked on; y: the other operand of the stage; st: sum, diff or fix

Ops == { "Add", "Sub", "Load" }
Init ==
  /\ op \in Ops
  /\ a \in 0..(IF op = "Load" THEN 2 * LInt - 1 ELSE LInt - 1)
  /\ b \in IF op = "Load" THEN { 0 } ELSE 0..(LInt - 1)
  /\ x = Limbs(a) /\ y = IF op = "Load" THEN Limbs(LInt) ELSE Limbs(b)
  /\ k = 1 /\ c = 0 /\ pc = "run" /\ st = IF op = "Add" THEN "sum" ELSE "diff"

Sum(lost) ==
  LET v == x[k] + y[k] + IF lost THEN 0 ELSE c
  IN  x' = [x EXCEPT ![k] = v % Base] /\ c' = v \div Base
Diff ==
  LET w == x[k] - y[k] - IF Variant = "eq" /\ x[k] = y[k] THEN 0 ELSE c
  IN  x' = [x EXCEPT ![k] = w % Base] /\ c' = IF w < 0 THEN 1 ELSE 0

Step ==
  /\ pc = "run" /\ k <= K
  /\ IF st = "diff" THEN Diff ELSE Sum(Variant = "lost" /\ st = "fix" /\ k = K - 1)
  /\ k' = k + 1 /\ UNCHANGED << op, a, b, y, st, pc >>
Stage ==
  /\ pc = "run" /\ k = K + 1
  /\ CASE st = "sum" -> \* then subtract L
            st' = "diff" /\ y' = Limbs(LInt) /\ k' = 1 /\ c' = 0 /\ UNCHANGED pc
       [] st = "diff" -> \* then add L, if the difference was negative
            /\ st' = "fix" /\ k' = 1 /\ c' = 0 /\ UNCHANGED pc
            /\ y' = IF c = 0 THEN [j \in 1..K |-> 0]
                    ELSE IF Variant = "mask" THEN [Limbs(LInt) EXCEPT ![K] = 0] ELSE Limbs(LInt)
       [] st = "fix" -> pc' = "done" /\ UNCHANGED << st, y, k, c >>
  /\ UNCHANGED << op, a, b, x >>
Next == Step \/ Stage
Spec == Init /\ [][Next]_vars

Want == CASE op = "Add" -> (a + b) % LInt [] op = "Sub" -> (a - b) % LInt [] op = "Load" -> a % LInt
Exact == pc = "done" => Val(x) = Want
ByClass == pc = "run" /\ k <= K =>
  IF st = "diff" THEN (x[k] - y[k] - c < 0) <=> BorrowOut(SubClass(x[k], y[k]), c) = 1
  ELSE (x[k] + y[k] + c >= Base) <=> CarryOut(SumClass(x[k], y[k]), c) = 1
=============================================================================
