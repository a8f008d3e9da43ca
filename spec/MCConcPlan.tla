----------------------------- MODULE MCConcPlan -----------------------------
(***************************************************************************)
(* What goroutines do at the same time.  Registers 1..3 of each kind are   *)
(* shared and only read; goroutine k has receivers 10k+1, 10k+2, ... of    *)
(* its own.  First(g): all goroutines call the one operation g, with every *)
(* choice of shared arguments and inputs, each starting at another one:    *)
(* also for the very first calls of a program.  Mixed(x, j): goroutine k   *)
(* goes through all operations in an order of its own, results of earlier  *)
(* calls being arguments of later ones.                                    *)
(***************************************************************************)
EXTENDS Plan, SequencesExt, FiniteSetsExt, Json, IOUtils

CONSTANTS G, Mixes, Steps

ShInit == << << "p1", "r1T" >>, << "p2", "base" >>, << "p3", "zeroT" >>, << "s1", "r1" >>, << "s2", "top" >>,
             << "s3", "l-1" >>, << "t1", "tr1" >>, << "t2", "tbase" >> >>
SharedRegs(k) == IF k = "t" THEN { << "t", 1 >>, << "t", 2 >> } ELSE { << k, j >> : j \in 1..3 }
Own(k, t, j) == << k, 10 * t + j >>

RECURSIVE Tuples(_)
Tuples(ks) == IF ks = << >> THEN { << >> }
              ELSE { << x >> \o r : x \in SharedRegs(Head(ks)), r \in Tuples(Tail(ks)) }
\* ConditionalSet needs a receiver with a value: the same register, set before
CallsOf(g, t) ==
  LET body == SetToSeq({ << as, in, n >> : as \in Tuples(g.as), in \in g.in, n \in g.n })
      mk(x) == Call(g, (IF g.r = "" THEN << >> ELSE << Own(g.r, t, 1) >>) \o x[1], x[2], x[3])
  IN  [k \in 1..Len(body) |-> mk(body[k])]
Rotate(s, k) == LET m == k % Len(s) IN SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)
Sets(g, t) == IF g.op \in Keeping THEN << Overwrite(Own(g.r, t, 1), IF g.r = "p" THEN "two" ELSE "small") >> ELSE << >>
First(g) == [name |-> g.op, init |-> ShInit,
             threads |-> [t \in 1..G |-> Sets(g, t) \o Rotate(CallsOf(g, t), (t - 1) * 5)]]

-----------------------------------------------------------------------------
\* a small generator of numbers, so that a mix is a function of its number
Lcg(x) == (x * 1103 + 12345) % 1048573
RECURSIVE Draw(_, _)
Draw(x, k) == IF k = 0 THEN x ELSE Draw(Lcg(x), k - 1)
Sigs == SetToSeq(Signatures)
Nth(S, x) == LET q == SetToSeq(S) IN q[(x % Len(q)) + 1]
\* step j of goroutine t in mix m; before the first step its registers get values
Mine(k, t) == IF k = "t" THEN { Own("t", t, 1) } ELSE { Own(k, t, 1), Own(k, t, 2) }
RECURSIVE Walk(_, _, _)
Walk(x, t, j) ==
  IF j = 0 THEN << >>
  ELSE LET x1 == Lcg(x)  g == Sigs[((x1 \div 7) % Len(Sigs)) + 1]
           slot(k, y) == IF y % 3 = 0 THEN Nth(Mine(k, t), y \div 3) ELSE Nth(SharedRegs(k), y \div 3)
           ys == << Draw(x1, 1) \div 5, Draw(x1, 2) \div 5, Draw(x1, 3) \div 5 >>
           as == [k \in 1..Len(g.as) |-> slot(g.as[k], ys[k])]
           r == IF g.r = "" THEN << >> ELSE << Nth(Mine(g.r, t), Draw(x1, 4) \div 5) >>
           in == Nth(g.in \ { "odd", "nonsquare", "range", "high", "todd" }, Draw(x1, 5) \div 5)
           c == Call(g, r \o as, in, Nth(g.n, Draw(x1, 6) \div 5))
       IN  << c >> \o Walk(Draw(x1, 7), t, j - 1)
Fill(t) == << Overwrite(Own("p", t, 1), "two"), Overwrite(Own("p", t, 2), "r2"), Overwrite(Own("s", t, 1), "small"),
              Overwrite(Own("s", t, 2), "r2"), Overwrite(Own("t", t, 1), "tr1") >>
Mixed(m) == [name |-> "mix" \o ToString(m), init |-> ShInit,
             threads |-> [t \in 1..G |-> Fill(t) \o Walk(Draw(m * 131 + t * 17, 3), t, Steps)]]

VARIABLE g
Init == g \in ({ "first" } \X (1..Len(Sigs))) \union ({ "mix" } \X (1..Mixes))
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
Plan1 == IF g[1] = "mix" THEN Mixed(g[2]) ELSE First(Sigs[g[2]])
Written == LET p == Plan1 IN
  Serialize(ToJson(p) \o "\n", IOEnv.PLAN_DIR \o "/" \o p.name \o ".json",
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "TRUNCATE_EXISTING" >>]).exitValue = 0
=============================================================================
