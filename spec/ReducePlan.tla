----------------------------- MODULE ReducePlan -----------------------------
(* Results of a reduction (Reduce) whose limbs make carries and borrows run *)
(* far in its last sweeps: two runs of limbs, one above the other, each all *)
(* zero ("0"), saturated ("1") or as in the modulus ("l"), the limbs around *)
(* them arbitrary ("r").  The recorder makes operands that lead to each.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

N == 12
Fill == { "0", "1", "l" }
VARIABLE run \* << first limb, first limb of the second run, first limb above both, fill, fill >>
RECURSIVE Str(_)
Str(s) == IF s = << >> THEN "" ELSE Head(s) \o Str(Tail(s))
At(k) == CASE k < run[1] -> "r" [] k < run[2] -> run[4] [] k < run[3] -> run[5] [] OTHER -> "r"
Pat == Str([k \in 1..N |-> At(k - 1)])

Init == \E a \in 0..(N - 1), f, g \in Fill : f # g /\ run = << a, a + 1, a + 1, f, g >>
Next == \/ run[2] = run[3] /\ run[2] < N /\ run' = [run EXCEPT ![2] = @ + 1, ![3] = @ + 1]
        \/ run[3] < N /\ run' = [run EXCEPT ![3] = @ + 1]
Spec == Init /\ [][Next]_run
Emit == Len(Pat) = N /\
  Serialize(ToJson([alg |-> "reduce", pat |-> Pat]) \o "\n", IOEnv.PLAN_FILE,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
