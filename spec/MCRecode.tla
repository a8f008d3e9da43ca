------------------------------ MODULE MCRecode ------------------------------
(***************************************************************************)
(* The three multiplication algorithms on all scalars below 2^Bits, with   *)
(* integers for points: acc ends as the scalar.                            *)
(*   "horner"  M windows, from the top: acc := 2^W acc + digit             *)
(*   "comb"    M windows (M even), a table of multiples of 2^(2 W j): the  *)
(*             odd ones, W doublings, the even ones                        *)
(*   "naf"     from the first non-zero digit down: double, add             *)
(* Tables hold the multiples up to 2^(W-1) (odd ones for "naf").           *)
(* Variant: "none", or a mistake that TLC must find:                       *)
(*   "drop"  the last carry is not added to the top digit                  *)
(*   "or"    the carry is or-ed into the digit                             *)
(*   "clear" an even value of the NAF drops the carry                      *)
(*   "short" the table lacks its last entry                                *)
(***************************************************************************)
EXTENDS Recode, Sequences, FiniteSets, TLC

CONSTANTS W, M, Bits, Variant
Algs == { "horner", "comb", "naf" }

VARIABLES alg, s, pos, carry, digs, acc, pc
vars == << alg, s, pos, carry, digs, acc, pc >>

Len_ == W * M
NDigits == IF alg = "naf" THEN Len_ ELSE M
BitsAt(n, p, k) == (n \div Pow2(p)) % Pow2(k)
Or(d, c) == IF c = 1 /\ d % 2 = 0 THEN d + 1 ELSE d

Init == /\ alg \in Algs /\ s \in 0..(Pow2(Bits) - 1)
        /\ pos = 0 /\ carry = 0 /\ acc = 0 /\ pc = "recode"
        /\ digs = [k \in 0..(NDigits - 1) |-> 0]

Window ==
  /\ pc = "recode" /\ alg # "naf" /\ pos < M
  /\ LET d == BitsAt(s, W * pos, W)
         v == IF Variant = "or" THEN Or(d, carry) ELSE d + carry
     IN  IF pos = M - 1 \* the top digit takes the carry and keeps its value
         THEN /\ digs' = [digs EXCEPT ![pos] = IF Variant = "drop" THEN d ELSE d + carry]
              /\ carry' = 0 /\ pos' = M /\ pc' = "mul"
         ELSE digs' = [digs EXCEPT ![pos] = WinDigit(W, v)] /\ carry' = WinCarry(W, v) /\ pos' = pos + 1 /\ pc' = pc
  /\ UNCHANGED << alg, s, acc >>
Naf ==
  /\ pc = "recode" /\ alg = "naf"
  /\ IF pos >= Len_ THEN pc' = "mul" /\ UNCHANGED << digs, carry, pos >>
     ELSE LET v == BitsAt(s, pos, W) + carry IN
          /\ digs' = [digs EXCEPT ![pos] = NafDigit(W, v)]
          /\ carry' = IF Variant = "clear" /\ v % 2 = 0 THEN 0 ELSE NafCarry(W, v, carry)
          /\ pos' = pos + NafMove(W, v) /\ pc' = pc
  /\ UNCHANGED << alg, s, acc >>

InTable(d) == LET a == IF d < 0 THEN -d ELSE d IN
  a <= IF Variant = "short" THEN Pow2(W - 1) - 1 ELSE Pow2(W - 1)

Sum(f(_), n) == LET F[k \in 0..n] == IF k = 0 THEN 0 ELSE F[k - 1] + f(k - 1) IN F[n]
Mul ==
  /\ pc = "mul"
  /\ acc' = CASE alg = "horner" -> LET F[k \in 0..M] == IF k = M THEN 0 ELSE Pow2(W) * F[k + 1] + digs[k] IN F[0]
              [] alg = "comb" ->
                   LET half == M \div 2
                       odd == Sum(LAMBDA j : digs[2*j + 1] * Pow2(2 * W * j), half)
                       ev == Sum(LAMBDA j : digs[2*j] * Pow2(2 * W * j), half)
                   IN  Pow2(W) * odd + ev
              [] alg = "naf" -> LET F[k \in 0..Len_] == IF k = Len_ THEN 0 ELSE 2 * F[k + 1] + digs[k] IN F[0]
  /\ pc' = "done" /\ UNCHANGED << alg, s, pos, carry, digs >>

Next == Window \/ Naf \/ Mul
Spec == Init /\ [][Next]_vars

Exact == pc = "done" => acc = s /\ carry = 0
InRange == pc = "done" => \A k \in DOMAIN digs : InTable(digs[k])
\* two non-zero digits of the NAF are W positions apart
Sparse == pc = "done" /\ alg = "naf" =>
  \A j, k \in DOMAIN digs : j < k /\ k < j + W /\ digs[j] # 0 => digs[k] = 0
=============================================================================
