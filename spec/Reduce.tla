------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Reduction modulo L = Base^N + C of what multiplication, MulAdd, MulSub  *)
(* and 64-byte inputs give: 2N limbs, which may be large and negative.  A  *)
(* limb k >= N is folded into the limbs k-N, k-N+1, ... times the digits   *)
(* of -C; in between, carries are taken, rounding to nearest ("bal") so    *)
(* that limbs stay small with either sign, and in the last two sweeps      *)
(* downwards ("floor") so that limbs become digits.  The program below is  *)
(* that of the library with N = 12, Base = 2^21.                           *)
(*                                                                         *)
(* Checked for all inputs of toy instances: each step keeps the value      *)
(* modulo L; the result is the reduced one.  Variant: a mistake that TLC   *)
(* must find:                                                              *)
(*   "last"   without the last fold and sweep                              *)
(*   "sweep"  without the sweep before it                                  *)
(*   "sign"   one digit of C with the wrong sign in the last fold          *)
(*   "round"  the last carries round to nearest                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Base, N, C, Source, Variant
H == N \div 2
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE Base * Pow(k - 1)
L == Pow(N) + C

\* the balanced digits of C
RECURSIVE Bal(_)
Bal(n) == IF n = 0 THEN << >>
          ELSE LET d == ((n + Base \div 2) % Base) - Base \div 2 IN << d >> \o Bal((n - d) \div Base)
CD == Bal(C)

Fold(k) == << "fold", k >>
Bc(k) == << "bal", k >>
Fc(k) == << "floor", k >>
Down(hi, lo) == [i \in 1..(hi - lo + 1) |-> Fold(hi + 1 - i)]
Twos(f(_), lo, hi) == [i \in 1..((hi - lo) \div 2 + 1) |-> f(lo + 2 * (i - 1))]
Each(f(_), lo, hi) == [i \in 1..(hi - lo + 1) |-> f(lo + i - 1)]

\* products come with large limbs: carries first
Before == IF Source = "bytes" THEN << >> ELSE Twos(Bc, 0, 2 * N - 2) \o Twos(Bc, 1, 2 * N - 3)
Middle == Down(2 * N - 1, N + H) \o Twos(Bc, H, N + H - 2) \o Twos(Bc, H + 1, N + H - 3)
          \o Down(N + H - 1, N) \o Twos(Bc, 0, N - 2) \o Twos(Bc, 1, N - 1) \o << Fold(N) >>
Sweep == Each(Fc, 0, N - 1)
Final == << Fold(N) >> \o IF Variant = "round" THEN Each(Bc, 0, N - 2) ELSE Each(Fc, 0, N - 2)
Program == Before \o Middle \o (IF Variant = "sweep" THEN << >> ELSE Sweep) \o (IF Variant = "last" THEN << >> ELSE Final)

\* limbs are x[1], x[2], ... for 0, 1, ...
Do(x, ins) ==
  LET k == ins[2] + 1 IN
  IF ins[1] = "fold" THEN
    [j \in DOMAIN x |-> IF j = k THEN 0
                        ELSE IF j >= k - N /\ j < k - N + Len(CD)
                        THEN x[j] - x[k] * CD[j - (k - N) + 1] * (IF Variant = "sign" /\ k = N + 1 /\ j = k - N THEN -1 ELSE 1)
                        ELSE x[j]]
  ELSE LET c == IF ins[1] = "bal" THEN (x[k] + Base \div 2) \div Base ELSE x[k] \div Base
       IN  [x EXCEPT ![k] = @ - c * Base, ![k + 1] = @ + c]
Val(x) == FoldRight(LAMBDA d, v : d + Base * v, x, 0)

Digits(n, m) == [i \in 1..m |-> (n \div Pow(i - 1)) % Base]
Conv(a, b, c, s) == \* the limbs of a*b + s*c
  [i \in 1..(2 * N) |->
    (IF i <= N THEN s * c[i] ELSE 0) +
    LET S[j \in 0..N] == IF j = 0 THEN 0 ELSE S[j - 1] + (IF i - j + 1 \in 1..N THEN a[j] * b[i - j + 1] ELSE 0) IN S[N]]
\* the top limb of a reduced number may exceed the base by one
Limbs(n) == [i \in 1..N |-> IF i < N THEN (n \div Pow(i - 1)) % Base ELSE n \div Pow(N - 1)]

VARIABLES x, want, pc
vars == << x, want, pc >>
Init ==
  /\ pc = 1
  /\ IF Source = "bytes" THEN \E n \in 0..(Pow(2 * N) - 1) : x = Digits(n, 2 * N) /\ want = n % L
     ELSE \E a, b \in 0..(L - 1), c \in { 0, 1, C, L - 1 }, s \in { 1, -1 } :
            a <= b /\ x = Conv(Limbs(a), Limbs(b), Limbs(c), s) /\ want = (a * b + s * c) % L
Next == pc <= Len(Program) /\ pc' = pc + 1 /\ x' = Do(x, Program[pc]) /\ UNCHANGED want
Spec == Init /\ [][Next]_vars

Congruent == Variant # "sign" => Val(x) % L = want
Reduced == pc = Len(Program) + 1 => x = [i \in 1..(2 * N) |-> IF i <= N THEN Limbs(want)[i] ELSE 0]
\* the whole program at once
AtOnce == Init /\ [][FALSE]_vars
Run(y) == FoldLeft(Do, y, Program)
ReducedRun == pc = 1 => Run(x) = [i \in 1..(2 * N) |-> IF i <= N THEN Limbs(want)[i] ELSE 0]
=============================================================================
