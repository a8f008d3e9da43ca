-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Sequences of calls on a small set of shared objects.  valid is the set  *)
(* of registers that hold a value; a decoding that fails leaves a point    *)
(* without one, and every other call gives its receiver one.  TLC          *)
(* simulates; each finished walk is appended to PLAN_FILE.                 *)
(***************************************************************************)
EXTENDS Plan, SequencesExt, FiniteSetsExt, Json, IOUtils

CONSTANTS Depth, NP, NS, NT, Focus

Regs == ({"p"} \X (1..NP)) \union ({"s"} \X (1..NS)) \union ({"t"} \X (1..NT))
BadPoint == { "odd", "nonsquare", "range", "high" }
BadText == { "thex64", "short", "long", "junk", "empty", "todd" }
BadBinary == BadPoint \union { "empty", "m1", "m200" }
Fails(c) == \/ c.op = "PSetBytes" /\ c.cls \in BadPoint
            \/ c.op = "PUnmarshalBinary" /\ c.cls \in BadBinary
            \/ c.op = "PUnmarshalText" /\ c.cls \in BadText

VARIABLES valid, calls, start, op, done, focus
vars == << valid, calls, start, op, done, focus >>

Init == /\ start = [x \in Regs |-> ""] /\ op = << >> /\ done = FALSE /\ focus = {}
        /\ valid = {} /\ calls = << >>

\* first give every register a value of some class
Load == \E x \in Regs : /\ start[x] = "" /\ x = CHOOSE z \in Regs : start[z] = ""
                        /\ \E cl \in Classes(x[1]) : start' = [start EXCEPT ![x] = cl]
                        /\ valid' = valid \union { x } /\ UNCHANGED << calls, op, done, focus >>

\* choose the operations of this walk, if they are to be few
Pick == /\ \A x \in Regs : start[x] # ""
        /\ Cardinality(focus) < Focus
        /\ \E g \in Signatures \ focus : focus' = focus \union { g }
        /\ UNCHANGED << valid, calls, start, op, done >>

\* then choose an operation, and its registers
Choose == /\ \A x \in Regs : start[x] # ""
          /\ Len(calls) < Depth /\ op = << >> /\ Cardinality(focus) = Focus
          /\ \E g \in IF Focus = 0 THEN Signatures ELSE focus : op' = << g >>
          /\ UNCHANGED << valid, calls, start, done, focus >>

Do == /\ op # << >> /\ op' = << >>
      /\ LET g == op[1] IN
         \/ \E as \in [1..Len(Slots(g)) -> Regs] :
              /\ \A k \in 1..Len(Slots(g)) : as[k][1] = Slots(g)[k]
              /\ ReadRegs(g, as) \subseteq valid
              /\ \E in \in g.in, n \in g.n :
                   LET c == Call(g, as, in, n) IN
                     /\ calls' = Append(calls, c)
                     /\ valid' = IF g.r = "" THEN valid
                                 ELSE IF Fails(c) THEN valid \ { as[1] } ELSE valid \union { as[1] }
         \/ ~(\E as \in [1..Len(Slots(g)) -> valid] : \A k \in 1..Len(Slots(g)) : as[k][1] = Slots(g)[k])
              /\ UNCHANGED << calls, valid >>
      /\ UNCHANGED << start, done, focus >>

\* the caller overwrites an object in place
Poke == /\ op = << >> /\ calls # << >> /\ Len(calls) < Depth
        /\ \E x \in Regs : \E cl \in Classes(x[1]) :
             calls' = Append(calls, Overwrite(x, cl)) /\ valid' = valid \union { x }
        /\ UNCHANGED << start, op, done, focus >>

Finish == Len(calls) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << valid, calls, start, op, focus >>

Next == Load \/ Pick \/ Choose \/ Do \/ Poke \/ Finish
Spec == Init /\ [][Next]_vars

Emit == done =>
  Serialize(ToJson([init |-> SetToSeq({ << RegName(x), start[x] >> : x \in Regs }), calls |-> calls]) \o "\n", IOEnv.PLAN_FILE,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
