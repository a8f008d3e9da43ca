------------------------------ MODULE LeakTrace ------------------------------
(***************************************************************************)
(* What an observer of control flow and memory accesses may learn from a   *)
(* call.  Each line tells of calls of one operation that looked the same:  *)
(* op, al (which of receiver and arguments are the same object), len (of   *)
(* the byte input), ok (the outcome of validation), cnt (how many calls),  *)
(* leak: the digests of the observations when the same call was made again *)
(* and again (one, unless something else than its arguments plays in), and *)
(* an example.  Public(e) is what a call may reveal.  Two calls with the   *)
(* same public part must be indistinguishable.                             *)
(***************************************************************************)
EXTENDS Scope, Ristretto255, Json, IOUtils, SequencesExt, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* documented to take variable time
VarTime == { "PPubMul", "PPubMulTable", "PPubMulBase", "XVarMul", "XTVarMul", "XBaseVarMul",
             "SSetBigInt", "SBigInt", "FSetBigInt", "FBigInt", "FString", "XString", "CString", "QString", "PString", "SString" }
\* done by the recorder
Harness == { "SLoad", "FLoad", "XLoad", "QLoad", "FLoosen", "PRerand", "XRerand", "begin" }
\* the form of a text (hexadecimal or base64, with or without line breaks, well-formed or not) is no secret
Forms == { "PUnmarshalText", "SUnmarshalText" }
PlainText(e) == e.ok /\ e.len = 43
\* a number rejected for not being reduced: the code compares it limb by limb, as variable-time as the compiler likes
Rejected(e) == e.op = "SSetBytesStrict" /\ ~e.ok

Judged(e) == e.op \notin VarTime \union Harness /\ (e.op \in Forms => PlainText(e)) /\ ~Rejected(e) /\ e.pan = ""
Public(e) == << e.op, e.al, e.len, e.ok >>
Digests(e) == ToSet(e.leak)

\* the first line of each class
First == FoldLeftDomain(LAMBDA m, k : IF Judged(Trace[k]) /\ Public(Trace[k]) \notin DOMAIN m
                                      THEN (Public(Trace[k]) :> k) @@ m ELSE m, << >>, Trace)

VARIABLES i, verdict
vars == << i, verdict >>
Verdict(k) == LET e == Trace[k] IN
  IF ~Judged(e) THEN "ok"
  ELSE IF Digests(e) \intersect Digests(Trace[First[Public(e)]]) = {} THEN "distinguishable"
  ELSE "ok"
Init == i = 0 /\ verdict = "ok"
Next == verdict = "ok" /\ i < Len(Trace) /\ i' = i + 1 /\ verdict' = Verdict(i + 1)
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
\* where the verdict comes from
Other == IF verdict = "ok" THEN 0 ELSE First[Public(Trace[i])]
Alias == [line |-> i, verdict |-> verdict, other |-> Other]
=============================================================================
