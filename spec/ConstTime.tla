------------------------------ MODULE ConstTime ------------------------------
(***************************************************************************)
(* Fixed-window scalar multiplication as an observer of control flow and   *)
(* memory sees it, two runs in lockstep with any two secrets (a self-      *)
(* composition): the runs must select the right multiples (Exact) and be   *)
(* indistinguishable (Same): at each step both show the same observation.  *)
(* Half is the number of table entries: digits lie in -Half..Half.         *)
(* Variant: "none", or a way to betray the secret, which TLC must find:    *)
(*   "skip"    zero digits are skipped                                     *)
(*   "direct"  the table is indexed by the digit                           *)
(*   "early"   the scan of the table ends when the entry is found          *)
(*   "branch"  negation happens in a branch                                *)
(*   "top"     leading zero digits are not processed                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Half, Len_, Variant

Digit == -Half..Half
Secrets == [1..Len_ -> Digit]
Abs(x) == IF x < 0 THEN -x ELSE x

VARIABLES secret, k, j, pc, sel, acc, obs
vars == << secret, k, j, pc, sel, acc, obs >>
Run == { 1, 2 }

RECURSIVE TopOf(_, _)
TopOf(s, n) == IF n = 0 THEN 0 ELSE IF s[n] # 0 THEN n ELSE TopOf(s, n - 1)
Start(s) == IF Variant = "top" THEN TopOf(s, Len_) ELSE Len_

Init ==
  /\ secret \in [Run -> Secrets]
  /\ k = [r \in Run |-> Start(secret[r])] /\ j = [r \in Run |-> 1]
  /\ pc = [r \in Run |-> IF k[r] = 0 THEN "done" ELSE "digit"]
  /\ sel = [r \in Run |-> 0] /\ acc = [r \in Run |-> << >>] /\ obs = [r \in Run |-> << "start" >>]

\* one step of run r: << pc', k', j', sel', acc', observation >>
Step(r) ==
  LET d == secret[r][k[r]] IN
  CASE pc[r] = "digit" ->
         IF Variant = "skip" /\ d = 0
         THEN << IF k[r] = 1 THEN "done" ELSE "digit", k[r] - 1, 1, 0, acc[r] \o << 0 >>, << "skip" >> >>
         ELSE IF Variant = "direct"
         THEN << "neg", k[r], 1, Abs(d), acc[r], << "load", Abs(d) >> >>
         ELSE << "scan", k[r], 1, 0, acc[r], << "digit" >> >>
    [] pc[r] = "scan" ->
         LET hit == j[r] = Abs(d)
             v == IF hit THEN j[r] ELSE sel[r]
         IN  << IF j[r] = Half \/ (Variant = "early" /\ hit) THEN "neg" ELSE "scan", k[r], j[r] + 1, v, acc[r],
                << "load", j[r] >> >>
    [] pc[r] = "neg" ->
         << "add", k[r], 1, IF d < 0 THEN -sel[r] ELSE sel[r], acc[r],
            IF Variant = "branch" THEN << "neg", d < 0 >> ELSE << "neg" >> >>
    [] pc[r] = "add" ->
         << IF k[r] = 1 THEN "done" ELSE "digit", k[r] - 1, 1, 0, acc[r] \o << sel[r] >>, << "add" >> >>
    [] pc[r] = "done" -> << "done", k[r], j[r], sel[r], acc[r], << "done" >> >>

Next ==
  /\ \E r \in Run : pc[r] # "done"
  /\ LET n == [r \in Run |-> Step(r)] IN
     /\ pc' = [r \in Run |-> n[r][1]] /\ k' = [r \in Run |-> n[r][2]] /\ j' = [r \in Run |-> n[r][3]]
     /\ sel' = [r \in Run |-> n[r][4]] /\ acc' = [r \in Run |-> n[r][5]] /\ obs' = [r \in Run |-> n[r][6]]
  /\ UNCHANGED secret
Spec == Init /\ [][Next]_vars

Rev(s) == [m \in 1..Len_ |-> s[Len_ + 1 - m]]
Exact == \A r \in Run : pc[r] = "done" /\ Variant # "top" => acc[r] = Rev(secret[r])
Same == obs[1] = obs[2] /\ (pc[1] = "done") = (pc[2] = "done")
=============================================================================
