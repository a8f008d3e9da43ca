------------------------------ MODULE RandTrace ------------------------------
(***************************************************************************)
(* Calls of Rand recorded with a scripted source of randomness.  An event  *)
(* holds the bytes the source has delivered and that no earlier call used  *)
(* (in), what is to become of the call (want: returned, failed, either)    *)
(* and what did.  Calls with the system's own source carry no bytes; their *)
(* values must all be different.                                           *)
(***************************************************************************)
EXTENDS Machine, Ristretto255, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Chunk == 32

VARIABLES i, verdict
vars == << i, verdict >>
Init == i \in { k \in 1..Len(Log) : k % Chunk = 1 } /\ verdict = "ok"

NeedOf(op) == IF op = "PRand" THEN 32 ELSE 64
Value(e) ==
  IF HexLen(e.in) < NeedOf(e.op) THEN "a value from fewer bytes than it needs"
  ELSE LET b == HexSub(e.in, 0, NeedOf(e.op))
           g == IF e.op = "PRand" THEN ObsPoint(e.rv, MapHex(b)) ELSE N(e.rv[1]) = BMod(N(b), L)
       IN  IF g THEN "ok" ELSE "not the value of the bytes delivered"

Scripted(e) ==
  CASE e.want = "returned" -> IF e.pan # "" THEN "does not return" ELSE Value(e)
    [] e.want = "failed" -> IF e.pan # "" THEN "ok" ELSE "returns though the source failed"
    [] e.want = "either" -> IF e.pan # "" THEN "ok" ELSE Value(e)

\* the system's source: out is the encoding of the value
System == { k \in 1..Len(Log) : Log[k].want = "system" }
Values == { << Log[k].op, Log[k].out >> : k \in System }
AllFresh == Cardinality(Values) = Cardinality(System)
Fresh(k) == IF Log[k].pan # "" THEN "does not return"
            ELSE IF AllFresh THEN "ok"
            ELSE IF \E m \in System : m < k /\ Log[m].op = Log[k].op /\ Log[m].out = Log[k].out THEN "not fresh"
            ELSE "ok"

Verdict(k) ==
  IF Log[k].want = "system" THEN Fresh(k)
  ELSE LET v == Scripted(Log[k]) IN IF v = "ok" /\ ~Log[k].ret /\ Log[k].pan = "" THEN "does not return its receiver" ELSE v

Next == \/ /\ verdict = "ok" /\ i % Chunk = 1 /\ Verdict(i) # "ok" /\ i' = i /\ verdict' = Verdict(i)
        \/ /\ verdict = "ok" /\ i < Len(Log) /\ i % Chunk # 0 /\ i' = i + 1 /\ verdict' = Verdict(i + 1)
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
