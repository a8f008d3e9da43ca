------------------------------ MODULE CarryPlan ------------------------------
(* All sequences of limb classes (Carry): the recorder makes operands of    *)
(* each for the scalars (8 limbs) and the field (5 and 10 limbs).           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cl == { "<", "=", ">" }
VARIABLE pat
Init == pat \in {""}
Next == Len(pat) < 8 /\ \E c \in Cl : pat' = pat \o c
Spec == Init /\ [][Next]_pat
Emit == Len(pat) \in { 5, 8 } =>
  Serialize(ToJson([pat |-> pat]) \o "\n", IOEnv.PLAN_FILE,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
