------------------------------- MODULE MCPlan -------------------------------
(* Every single call in every aliasing pattern on every combination of      *)
(* value classes, one initial state each, written to PLAN_FILE.             *)
EXTENDS Plan, SequencesExt, Json, IOUtils

InitSeq(f) == SetToSeq({ << RegName(x), f[x] >> : x \in DOMAIN f })
Single(g) == UNION { { [init |-> InitSeq(f), calls |-> << Call(g, as, in, n) >>]
                       : f \in Inits(g, as), in \in g.in, n \in g.n } : as \in Assign(Slots(g), << >>) }

(* The same call on the same objects again, after one of them was           *)
(* overwritten in place: nothing may remember the first call.               *)
Plain(g, as) == [x \in Img(as) |-> IF x[1] = "p" THEN (IF x[2] = 1 THEN "r1" ELSE "two")
                                  ELSE IF x[1] = "s" THEN (IF x[2] = 1 THEN "r1" ELSE "small") ELSE "tr1"]
Values(g, as, x) == Classes(x[1]) \union (IF x \in ReadRegs(g, as) THEN {} ELSE Dirty(x[1]) \ { "fresh" })
Again(g) == UNION { UNION { { [init |-> InitSeq(Plain(g, as)),
                               calls |-> << Call(g, as, in, n), Overwrite(x, cl), Call(g, as, in, n) >>]
                              : cl \in Values(g, as, x), in \in g.in, n \in g.n } : x \in Img(as) }
                    : as \in Assign(Slots(g), << >>) }
(* and with another input on the same objects                               *)
Other(g) == UNION { { [init |-> InitSeq(Plain(g, as)),
                       calls |-> << Call(g, as, in[1], n), Call(g, as, in[2], n), Call(g, as, in[1], n) >>]
                      : in \in { w \in g.in \X g.in : w[1] # w[2] }, n \in g.n } : as \in Assign(Slots(g), << >>) }
Cases(g) == Single(g) \union Again(g) \union Other(g)

VARIABLE g
Init == g \in Signatures
Next == UNCHANGED g
Spec == Init /\ [][Next]_g

Text(c) == ToJson(c)
Written == Serialize(FoldSet(LAMBDA c, t : t \o ToJson(c) \o "\n", "", Cases(g)), IOEnv.PLAN_DIR \o "/" \o g.op \o ".ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "TRUNCATE_EXISTING" >>]).exitValue = 0
=============================================================================
