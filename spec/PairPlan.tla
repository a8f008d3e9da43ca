------------------------------ MODULE PairPlan ------------------------------
(* Pairs of points: how the first came about, what the second is to it, and *)
(* which of its representatives: moved by a torsion point, scaled by a      *)
(* fourth root of unity, so that a coordinate or what the formulas make of  *)
(* two (s: Y+X, d: Y-X, u: Z+Y, v: Z-Y) agrees with that of the first up to *)
(* sign, or by anything.  The recorder makes them and performs the          *)
(* operations on pairs (C01, C09, C13).                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

From == { "zero", "base", "decoded", "map", "sum", "torsion" }
Moved == { "no", "scaled", "loose" }
To == { "same", "neg", "double", "half", "next", "other" }
Scale == { "1", "i", "-1", "-i", "X", "Y", "Z", "T", "s", "d", "u", "v", "r" }

VARIABLE l
Init == \E f \in From, m \in Moved, t \in To, k \in 0..3, c \in Scale, g \in { 1, -1 } :
          l = [alg |-> "pair", from |-> f, moved |-> m, to |-> t, tor |-> k, scale |-> c, sign |-> g]
Next == FALSE /\ UNCHANGED l
Spec == Init /\ [][Next]_l
Emit == Serialize(ToJson(l) \o "\n", IOEnv.PLAN_FILE,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
