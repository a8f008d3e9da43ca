-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The file holds histories recorded from the Go code,  *)
(* one event per line; line "begin" starts a history with no registers.    *)
(* Each history is a behaviour of Machine: every event takes the machine's *)
(* transition, and verdict says whether what was observed agrees with it   *)
(* (for the operations in the scope of the property).                      *)
(***************************************************************************)
EXTENDS Scope, Ristretto255, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Starts == { k \in 1..Len(Log) : Log[k].op = "begin" }
Judged == Scope(IOEnv.PROPERTY)

VARIABLES i, reg, verdict
vars == << i, reg, verdict >>

Init == i \in Starts /\ reg = << >> /\ verdict = "ok"

Without(r, ks) == [x \in DOMAIN r \ ks |-> r[x]]
With(r, e, o) == IF e.op \in Queries \/ e.r = "" THEN r
                 ELSE IF o.has THEN (e.r :> o.v) @@ r ELSE Without(r, { e.r })
\* an operation that changed something else is the business of C10: the value
\* of what it changed is not known (listed with "~": only its representation)
Next == /\ verdict = "ok"
        /\ i < Len(Log)
        /\ Log[i + 1].op # "begin"
        /\ Readable(reg, Log[i + 1])
        /\ i' = i + 1
        /\ LET e == Log[i + 1]
               o == Step(reg, e)
           IN  IF o.good THEN reg' = Without(With(reg, e, o), Range(e.chg)) /\ verdict' = "ok"
               ELSE IF e.op \in Judged THEN reg' = reg /\ verdict' = "want: " \o o.want
               ELSE /\ reg' = Without(With(reg, e, Observed(e)), Range(e.chg))
                    /\ verdict' = IF e.pan = "" THEN "ok" ELSE "other"
Spec == Init /\ [][Next]_vars
Conforms == verdict \in { "ok", "other" }
=============================================================================
