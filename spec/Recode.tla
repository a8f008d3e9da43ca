------------------------------- MODULE Recode -------------------------------
(***************************************************************************)
(* How scalar multiplication turns a scalar into signed digits, one digit  *)
(* per step, from the least significant one.                               *)
(*                                                                         *)
(* Fixed windows of w bits: the raw digit d and the carry c become the     *)
(* signed digit v - 2^w c' of v = d + c, where c' is the next carry: 1 as  *)
(* soon as v reaches 2^(w-1).  Non-adjacent form of width w: an even value *)
(* of the next w bits plus the carry moves on by one bit, an odd one gives *)
(* a digit and moves on by w bits.                                         *)
(*                                                                         *)
(* Each step keeps  d + c = digit + 2^w c'  (StepExact below): with it, by *)
(* induction, the digits and the last carry sum up to the scalar, whatever *)
(* its length; the ranges say that the tables have every digit.            *)
(***************************************************************************)
EXTENDS Integers

Pow2(k) == LET F[j \in 0..k] == IF j = 0 THEN 1 ELSE 2 * F[j - 1] IN F[k]

\* the carry out of, and the digit for, the value v of raw digit plus carry
WinCarry(w, v) == IF v >= Pow2(w - 1) THEN 1 ELSE 0
WinDigit(w, v) == v - Pow2(w) * WinCarry(w, v)

\* v: the next w bits plus the carry
NafMove(w, v) == IF v % 2 = 0 THEN 1 ELSE w
NafDigit(w, v) == IF v % 2 = 0 THEN 0 ELSE IF v < Pow2(w - 1) THEN v ELSE v - Pow2(w)
NafCarry(w, v, c) == IF v % 2 = 0 THEN c ELSE IF v < Pow2(w - 1) THEN 0 ELSE 1

ASSUME StepExact ==
  \A w \in 2..7 : \A d \in 0..(Pow2(w) - 1), c \in {0, 1} :
    LET v == d + c IN
    /\ v = WinDigit(w, v) + Pow2(w) * WinCarry(w, v)
    /\ WinDigit(w, v) \in (-Pow2(w - 1))..(Pow2(w - 1) - 1)
    /\ IF v % 2 = 1
       THEN /\ v = NafDigit(w, v) + Pow2(w) * NafCarry(w, v, c)
            /\ NafDigit(w, v) % 2 = 1 /\ NafDigit(w, v) \in (-Pow2(w - 1))..Pow2(w - 1)
       ELSE \* one bit is consumed: bit + carry in = 2 * carry out
            (d % 2) + c = 2 * NafCarry(w, v, c)
=============================================================================
