----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Goroutines that call the library at the same time.  A call is not       *)
(* atomic: it reads its arguments word by word, works, and writes its      *)
(* receiver word by word.  Objects are shared as long as nobody writes     *)
(* them; each goroutine has receivers of its own.  The package has         *)
(* constants and tables of its own, which calls read.                      *)
(*                                                                         *)
(* Under this discipline every call returns what it returns alone, under   *)
(* every schedule (Exact), and no two accesses race (NoRace): checked for  *)
(* all interleavings of a small instance.  Variant says how a library      *)
(* could go wrong; for each of them TLC must find a schedule that breaks   *)
(* Exact or NoRace:                                                        *)
(*   "scratch"  temporaries of a call live in a package variable           *)
(*   "lazy"     a package constant is computed on first use, unguarded     *)
(*   "normalise" an argument is rewritten in place, to the same value      *)
(*   "cache"    the last result is kept in a package variable, its key     *)
(*              and its value written separately                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Words, Variant, Calls

W == 1..Words
Shared == { "a", "b" }
Value(x, w) == IF x = "a" THEN 3 * w ELSE 5 + w         \* what shared objects hold
Const(w) == 7 * w                                       \* what package constants hold
F(x, y, w) == Value(x, w) + 2 * Value(y, w) + Const(w)  \* what a call computes

VARIABLES mem,      \* shared objects: word -> value
          pkg,      \* package state: constants, scratch, cache
          pc, args, loc, recv, n, access
vars == << mem, pkg, pc, args, loc, recv, n, access >>

\* access[t]: the accesses of t's current step, as << location, kind >>
None == {}
Init ==
  /\ mem = [x \in Shared |-> [w \in W |-> Value(x, w)]]
  /\ pkg = [const |-> [w \in W |-> IF Variant = "lazy" THEN 0 ELSE Const(w)], ready |-> Variant # "lazy",
            scratch |-> [w \in W |-> 0], key |-> << >>, val |-> [w \in W |-> 0]]
  /\ pc = [t \in Threads |-> "idle"] /\ args = [t \in Threads |-> << "a", "a" >>]
  /\ loc = [t \in Threads |-> [w |-> 1, tmp |-> [w \in W |-> 0]]]
  /\ recv = [t \in Threads |-> [w \in W |-> 0]]
  /\ n = [t \in Threads |-> 0] /\ access = [t \in Threads |-> None]

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Acc(t, s) == access' = [access EXCEPT ![t] = s]

Begin(t) ==
  /\ pc[t] = "idle" /\ n[t] < Calls
  /\ \E x \in Shared, y \in Shared : args' = [args EXCEPT ![t] = << x, y >>]
  /\ loc' = [loc EXCEPT ![t].w = 1]
  /\ Goto(t, CASE Variant = "cache" -> "probe" [] Variant = "lazy" -> "lazy" [] OTHER -> "read")
  /\ Acc(t, None) /\ UNCHANGED << mem, pkg, recv, n >>

\* lazy initialisation without a guard
Lazy(t) ==
  /\ pc[t] = "lazy"
  /\ IF pkg.ready THEN Goto(t, "read") /\ Acc(t, { << "ready", "r" >> }) /\ UNCHANGED pkg
     ELSE /\ pkg' = [pkg EXCEPT !.ready = TRUE] /\ Goto(t, "lazy2") /\ Acc(t, { << "ready", "w" >> })
  /\ UNCHANGED << mem, args, loc, recv, n >>
Lazy2(t) ==
  /\ pc[t] = "lazy2"
  /\ pkg' = [pkg EXCEPT !.const = [w \in W |-> Const(w)]] /\ Goto(t, "read")
  /\ Acc(t, { << "const", w, "w" >> : w \in W }) /\ UNCHANGED << mem, args, loc, recv, n >>

\* is the last result the one asked for?
Probe(t) ==
  /\ pc[t] = "probe" /\ Acc(t, { << "key", "r" >> })
  /\ IF pkg.key = args[t] THEN Goto(t, "hit") ELSE Goto(t, "read")
  /\ UNCHANGED << mem, pkg, args, loc, recv, n >>
Hit(t) ==
  /\ pc[t] = "hit" /\ loc' = [loc EXCEPT ![t].tmp = pkg.val, ![t].w = 1] /\ Goto(t, "write")
  /\ Acc(t, { << "val", "r" >> }) /\ UNCHANGED << mem, pkg, args, recv, n >>

\* one word of both arguments, and of a constant
Read(t) ==
  /\ pc[t] = "read"
  /\ LET w == loc[t].w  x == args[t][1]  y == args[t][2]
         v == mem[x][w] + 2 * mem[y][w] + pkg.const[w]
         tmp == IF Variant = "scratch" THEN loc[t].tmp ELSE [loc[t].tmp EXCEPT ![w] = v]
     IN  /\ pkg' = IF Variant = "scratch" THEN [pkg EXCEPT !.scratch[w] = v] ELSE pkg
         /\ Acc(t, { << x, w, "r" >>, << y, w, "r" >>, << "const", w, "r" >> } \union
                   (IF Variant = "scratch" THEN { << "scratch", w, "w" >> } ELSE {}))
         /\ IF w < Words THEN loc' = [loc EXCEPT ![t] = [w |-> w + 1, tmp |-> tmp]] /\ UNCHANGED pc
            ELSE /\ loc' = [loc EXCEPT ![t] = [w |-> 1, tmp |-> tmp]]
                 /\ Goto(t, CASE Variant = "normalise" -> "norm" [] Variant = "cache" -> "keep1" [] OTHER -> "write")
  /\ UNCHANGED << mem, args, recv, n >>

\* rewrite the first argument: the words of another representation first, then the old ones
Norm(t) ==
  /\ pc[t] = "norm" /\ mem' = [mem EXCEPT ![args[t][1]][1] = 0] /\ Goto(t, "norm2")
  /\ Acc(t, { << args[t][1], 1, "w" >> }) /\ UNCHANGED << pkg, args, loc, recv, n >>
Norm2(t) ==
  /\ pc[t] = "norm2" /\ mem' = [mem EXCEPT ![args[t][1]][1] = Value(args[t][1], 1)] /\ Goto(t, "write")
  /\ Acc(t, { << args[t][1], 1, "w" >> }) /\ UNCHANGED << pkg, args, loc, recv, n >>

Keep1(t) ==
  /\ pc[t] = "keep1" /\ pkg' = [pkg EXCEPT !.key = args[t]] /\ Goto(t, "keep2")
  /\ Acc(t, { << "key", "w" >> }) /\ UNCHANGED << mem, args, loc, recv, n >>
Keep2(t) ==
  /\ pc[t] = "keep2" /\ pkg' = [pkg EXCEPT !.val = loc[t].tmp] /\ Goto(t, "write")
  /\ Acc(t, { << "val", "w" >> }) /\ UNCHANGED << mem, args, loc, recv, n >>

Write(t) ==
  /\ pc[t] = "write"
  /\ LET w == loc[t].w
         v == IF Variant = "scratch" THEN pkg.scratch[w] ELSE loc[t].tmp[w]
     IN  /\ recv' = [recv EXCEPT ![t][w] = v]
         /\ Acc(t, { << t, w, "w" >> } \union (IF Variant = "scratch" THEN { << "scratch", w, "r" >> } ELSE {}))
         /\ IF w < Words THEN loc' = [loc EXCEPT ![t].w = w + 1] /\ UNCHANGED << pc, n >>
            ELSE UNCHANGED loc /\ Goto(t, "done") /\ UNCHANGED n
  /\ UNCHANGED << mem, pkg, args >>

Return(t) ==
  /\ pc[t] = "done" /\ Goto(t, "idle") /\ n' = [n EXCEPT ![t] = @ + 1] /\ Acc(t, None)
  /\ UNCHANGED << mem, pkg, args, loc, recv >>

Step(t) == Begin(t) \/ Lazy(t) \/ Lazy2(t) \/ Probe(t) \/ Hit(t) \/ Read(t) \/ Norm(t) \/ Norm2(t)
           \/ Keep1(t) \/ Keep2(t) \/ Write(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Exact == \A t \in Threads : pc[t] = "done" => recv[t] = [w \in W |-> F(args[t][1], args[t][2], w)]
OnlyRead == Variant \notin { "normalise" } => mem = [x \in Shared |-> [w \in W |-> Value(x, w)]]
\* the latest steps of two goroutines never touch the same location, one writing: nothing orders them
Writes(S) == { SubSeq(a, 1, Len(a) - 1) : a \in { b \in S : b[Len(b)] = "w" } }
Touches(S) == { SubSeq(a, 1, Len(a) - 1) : a \in S }
NoRace == \A t, u \in Threads : t # u => Writes(access[t]) \intersect Touches(access[u]) = {}
=============================================================================
