----------------------------- MODULE RandSource -----------------------------
(***************************************************************************)
(* A call that draws randomness, and the source it draws from.  The source *)
(* answers each read of at most m bytes with k <= m bytes and possibly an  *)
(* error, as an io.Reader may.  The call wants Need bytes: it reads until  *)
(* it has them and returns the value of exactly these, or the source fails *)
(* before and the call does not return.                                    *)
(*                                                                         *)
(* TLC explores every behaviour of the source with answers of these sizes  *)
(* and at most MaxReads reads; each finished one is appended to PLAN_FILE  *)
(* for the recorder to play to the library.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Needs, MaxReads

VARIABLES need, got, script, st
vars == << need, got, script, st >>

Errors == { "eof", "unexpected", "boom" }
Answer(k, err) == [k |-> k, err |-> err]

Init == need \in Needs /\ got = 0 /\ script = << >> /\ st = "reading"

Left == need - got
Sizes == { k \in { 0, 1, 16, Left - 1 } : k >= 0 /\ k < Left }

Read(k, err) == script' = Append(script, Answer(k, err)) /\ got' = got + k /\ UNCHANGED need

\* fewer bytes than asked for, no error: the call goes on
Short == /\ st = "reading" /\ Len(script) < MaxReads
         /\ \E k \in Sizes : Read(k, "") /\ st' = "reading"
\* all that is missing
Rest == /\ st = "reading" /\ Read(Left, "") /\ st' = "returned"
\* one byte at a time, to the end
Drip == /\ st = "reading" /\ Len(script) < MaxReads /\ Left > 1
        /\ script' = script \o [j \in 1..Left |-> Answer(1, "")] /\ got' = need /\ UNCHANGED need /\ st' = "returned"
\* the source fails
Fail == /\ st = "reading"
        /\ \E k \in Sizes, e \in Errors : Read(k, e) /\ st' = "failed"
\* an error together with the last byte: it may be reported or not
Late == /\ st = "reading"
        /\ \E e \in Errors : Read(Left, e) /\ st' = "either"

Next == Short \/ Rest \/ Drip \/ Fail \/ Late
Spec == Init /\ [][Next]_vars

\* a value comes from Need delivered bytes only
FullLength == st \in { "returned", "either" } => got = need
NeverShort == st = "failed" => got < need
Emit == st # "reading" =>
  Serialize(ToJson([need |-> need, script |-> script, st |-> st]) \o "\n", IOEnv.PLAN_FILE,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
