----------------------------- MODULE RecodePlan -----------------------------
(***************************************************************************)
(* Scalars that take every transition of the full-size recodings: every    *)
(* raw digit with either carry at every position of the windows of four    *)
(* bits (tables), five bits (ScalarMult) and three and one bits (the C     *)
(* reference), and every value of the next bits with either carry at       *)
(* every position of the 5-NAF.  low is a witness: a scalar below L whose  *)
(* last step so far is the transition; it is no part of the view, so TLC   *)
(* keeps one witness per transition.  Each is appended to PLAN_FILE.       *)
(***************************************************************************)
EXTENDS Recode, BigNum, Sequences, TLC, Json, IOUtils

LOrder == BAdd(BPow2(252), BFromLE("edd3f55c1a631258d69cf7a2def9de14"))
CONSTANT Widths   \* of the fixed windows

VARIABLES alg, w, pos, cin, d, c, low
vars == << alg, w, pos, cin, d, c, low >>
View == << alg, w, pos, cin, d >>

Bound(a) == 253
Put(n) == BAdd(low, BMul(BFromInt(n), BPow2(pos)))

Init == /\ \/ alg = "win" /\ w \in Widths
           \/ alg = "naf" /\ w = 5
        /\ pos = 0 /\ cin = 0 /\ d = 0 /\ c = 0 /\ low = << >>

Win == /\ alg = "win" /\ pos < 253
       /\ \E n \in 0..(Pow2(w) - 1) :
            /\ BLt(Put(n), LOrder)
            /\ low' = Put(n) /\ d' = n /\ cin' = c /\ c' = WinCarry(w, n + c) /\ pos' = pos + w
       /\ UNCHANGED << alg, w >>
\* the bits from pos on are chosen now; after an even value all but the first are chosen anew
Naf == /\ alg = "naf" /\ pos < 253
       /\ \E n \in 0..(Pow2(w) - 1) :
            LET v == n + c  m == NafMove(w, v)  keep == IF m = 1 THEN n % 2 ELSE n IN
            /\ BLt(Put(n), LOrder)
            /\ low' = Put(keep) /\ d' = n /\ cin' = c /\ c' = NafCarry(w, v, c) /\ pos' = pos + m
       /\ UNCHANGED << alg, w >>
Next == Win \/ Naf
Spec == Init /\ [][Next]_vars

\* what was chosen in full, for the record
Chosen == IF alg = "naf" /\ pos > 0 /\ NafMove(w, d + cin) = 1
          THEN BAdd(low, BMul(BFromInt((d \div 2)), BPow2(pos))) ELSE low
Emit == pos > 0 =>
  Serialize(ToJson([alg |-> alg, w |-> w, pos |-> pos, cin |-> cin, d |-> d, s |-> BToLE(Chosen, 32)]) \o "\n", IOEnv.PLAN_FILE,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
Reduced == BLt(Chosen, LOrder)
=============================================================================
