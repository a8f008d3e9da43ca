-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* No aliasing effects, no hidden state, no side effects: a property of    *)
(* two runs.  TRACE_FILE holds calls recorded from histories in which      *)
(* objects are shared, aliased and reused; TWIN_FILE holds, line by line,  *)
(* the same call performed alone on fresh objects with the same argument   *)
(* values.  In Machine the outcome of a call is a function of these        *)
(* values, so both must show the same: the same group element, scalar,     *)
(* output and flags.  And the call must leave everything but its receiver  *)
(* alone and return its receiver (Frame).                                  *)
(***************************************************************************)
EXTENDS Machine, Ristretto255, Json, IOUtils

Run == ndJsonDeserialize(IOEnv.TRACE_FILE)
Alone == ndJsonDeserialize(IOEnv.TWIN_FILE)
Chunk == 64

VARIABLES i, verdict
vars == << i, verdict >>

Init == i \in { k \in 1..Len(Run) : k % Chunk = 1 } /\ verdict = "ok"

ValidObs(rv) == ExtValid(N(rv[1]), N(rv[2]), N(rv[3]), N(rv[4]))
SameObs(e, t) ==
  IF e.pan # "" \/ t.pan # "" THEN (e.pan # "") = (t.pan # "")
  ELSE /\ e.ok = t.ok
       /\ e.out = t.out \/ (~e.ok /\ e.op \in Queries)
       /\ \/ e.rv = t.rv
          \/ ~e.ok /\ e.op \in PointOps            \* what a failed decoding leaves is open
          \/ /\ e.op \in PointOps
             /\ IF ValidObs(t.rv) THEN ObsPoint(e.rv, AffOf(t.rv)) ELSE ~ValidObs(e.rv)

Verdict(e, t) ==
  IF e.op = "begin" THEN "ok"
  ELSE IF e.op = "race" THEN "data race"                    \* these come from goroutines (C15)
  ELSE IF e.op = "crash" THEN "ends the program"
  ELSE IF e.op = "end" THEN IF e.chg = << >> THEN "ok" ELSE "changes something that is shared"
  ELSE IF ~SameObs(e, t) THEN "differs from the call alone"
  ELSE IF ~e.ret THEN "does not return its receiver"
  ELSE IF e.chg # << >> THEN "changes something other than its receiver"
  ELSE "ok"

\* verdict is that on line i
Next == \/ /\ verdict = "ok" /\ i % Chunk = 1 /\ Verdict(Run[i], Alone[i]) # "ok"
           /\ i' = i /\ verdict' = Verdict(Run[i], Alone[i])
        \/ /\ verdict = "ok" /\ i < Len(Run) /\ i % Chunk # 0
           /\ i' = i + 1 /\ verdict' = Verdict(Run[i + 1], Alone[i + 1])
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
