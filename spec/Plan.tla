-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* How the API may be used: which calls exist, which registers (objects)   *)
(* each touches, in every aliasing pattern, on values of which classes.    *)
(* TLC enumerates the calls (MCPlan) and walks through sequences of them   *)
(* (Walk); the recorder performs them on real objects.                     *)
(*                                                                         *)
(* A register is << kind, number >>; kinds: p point, s scalar, t table.    *)
(* Class names stand for concrete values the recorder chooses by seed.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

PClasses == { "zero", "zeroT", "base", "nbase", "two", "r1", "r1T", "r2" }
SClasses == { "0", "1", "l-1", "small", "top", "r1", "r2" }
TClasses == { "tbase", "tr1" }
Classes(k) == CASE k = "p" -> PClasses [] k = "s" -> SClasses [] k = "t" -> TClasses

(* What a receiver that is no argument may hold before: nothing yet, some   *)
(* value, or what a failed decoding or a stray write left there.            *)
Dirty(k) == CASE k = "p" -> { "fresh", "r2", "bad" }
              [] k = "s" -> { "fresh", "r2", "ones" }
              [] k = "t" -> { "fresh", "tr1", "ones" }

(* Signature: kind of the receiver ("" for a query), kinds of the           *)
(* arguments, classes of the input, small integers.                         *)
Sg(op, r, as, in, n) == [op |-> op, r |-> r, as |-> as, in |-> in, n |-> n]
None == { "" }
Z == { 0 }
Enc == { "e1", "e2", "ezero", "odd", "nonsquare", "range", "high" }
Txt == { "t1", "t2", "hex1", "thex64", "short", "long", "junk", "empty", "todd", "tnl", "tpad", "tstd", "hexup", "any1", "any2" }
\* x: as the one without, but for one byte in the middle
B32 == { "e1", "zeros", "ones", "l", "l-1", "r1", "r1x" }
Msg == { "empty", "m1", "m32", "m32x", "m200", "m200x" }

Signatures == {
  Sg("PZero", "p", << >>, None, Z), Sg("PBase", "p", << >>, None, Z),
  Sg("PSet", "p", << "p" >>, None, Z), Sg("PNeg", "p", << "p" >>, None, Z),
  Sg("PDouble", "p", << "p" >>, None, Z),
  Sg("PAdd", "p", << "p", "p" >>, None, Z), Sg("PSub", "p", << "p", "p" >>, None, Z),
  Sg("PMul", "p", << "p", "s" >>, None, Z), Sg("PPubMul", "p", << "p", "s" >>, None, Z),
  Sg("PMulTable", "p", << "t", "s" >>, None, Z), Sg("PPubMulTable", "p", << "t", "s" >>, None, Z),
  Sg("PMulBase", "p", << "s" >>, None, Z), Sg("PPubMulBase", "p", << "s" >>, None, Z),
  Sg("TCompute", "t", << "p" >>, None, Z),
  Sg("PElligator", "p", << >>, B32, Z), Sg("PDerive", "p", << >>, Msg, Z),
  Sg("PDeriveDalek", "p", << >>, Msg, Z), Sg("PSetLizard", "p", << >>, { "d1", "d1x", "d2", "zeros" }, Z),
  Sg("PSetBytes", "p", << >>, Enc, Z), Sg("PUnmarshalBinary", "p", << >>, Enc \union { "empty", "m1", "b33", "m200" }, Z),
  Sg("PUnmarshalText", "p", << >>, Txt, Z),
  Sg("PCondSet", "p", << "p" >>, None, { 0, 1 }),
  Sg("PBytes", "", << "p" >>, None, Z), Sg("PBytesInto", "", << "p" >>, None, { 0, 255 }),
  Sg("PMarshalBinary", "", << "p" >>, None, Z), Sg("PMarshalText", "", << "p" >>, None, Z),
  Sg("PString", "", << "p" >>, None, Z), Sg("PEquals", "", << "p", "p" >>, None, Z),
  Sg("PEqualsI", "", << "p", "p" >>, None, Z), Sg("PLizard", "", << "p" >>, None, Z),
  Sg("PLizardInto", "", << "p" >>, None, { 0, 255 }),
  Sg("SZero", "s", << >>, None, Z), Sg("SOne", "s", << >>, None, Z),
  Sg("SSet", "s", << "s" >>, None, Z), Sg("SNeg", "s", << "s" >>, None, Z),
  Sg("SAdd", "s", << "s", "s" >>, None, Z), Sg("SSub", "s", << "s", "s" >>, None, Z),
  Sg("SMul", "s", << "s", "s" >>, None, Z), Sg("SSquare", "s", << "s" >>, None, Z),
  Sg("SMulAdd", "s", << "s", "s", "s" >>, None, Z), Sg("SMulSub", "s", << "s", "s", "s" >>, None, Z),
  Sg("SInverse", "s", << "s" >>, None, Z),
  Sg("SSetBytes", "s", << >>, B32, Z), Sg("SSetBytesStrict", "s", << >>, B32, Z),
  Sg("SSetReduced", "s", << >>, { "zeros", "ones", "r1", "r1x" }, Z),
  Sg("SSetBigInt", "s", << >>, { "zeros", "l", "r1", "r1x", "m200", "m200x" }, { 1, -1 }),
  Sg("SSetUint64", "s", << >>, { "zeros", "ones", "r1" }, Z),
  Sg("SDerive", "s", << >>, Msg, Z), Sg("SDeriveShort", "s", << >>, Msg, Z),
  Sg("SCondSet", "s", << "s" >>, None, { 0, 1 }),
  Sg("SUnmarshalBinary", "s", << >>, B32 \union { "empty", "m1", "b33", "m200" }, Z),
  Sg("SUnmarshalText", "s", << >>, Txt, Z),
  Sg("SBytes", "", << "s" >>, None, Z), Sg("SBytesInto", "", << "s" >>, None, { 0, 255 }),
  Sg("SMarshalBinary", "", << "s" >>, None, Z), Sg("SBigInt", "", << "s" >>, None, Z),
  Sg("SMarshalText", "", << "s" >>, None, Z), Sg("SString", "", << "s" >>, None, Z),
  Sg("SEquals", "", << "s", "s" >>, None, Z), Sg("SEqualsI", "", << "s", "s" >>, None, Z),
  Sg("SIsNonZeroI", "", << "s" >>, None, Z) }

Slots(g) == (IF g.r = "" THEN << >> ELSE << g.r >>) \o g.as

(* Assignments of registers to slots, up to renaming: a slot takes a        *)
(* register of its kind that an earlier slot has, or the next new one.      *)
RECURSIVE Assign(_, _)
Assign(ks, done) ==
  IF ks = << >> THEN { done }
  ELSE LET k == Head(ks)
           used == { j \in 1..4 : \E m \in 1..Len(done) : done[m] = << k, j >> }
       IN  UNION { Assign(Tail(ks), Append(done, << k, j >>)) : j \in used \union { Cardinality(used) + 1 } }

RegName(x) == x[1] \o ToString(x[2])
Img(f) == { f[k] : k \in DOMAIN f }

(* Does the call read what its receiver holds?                              *)
Keeping == { "PCondSet", "SCondSet" }
ReadRegs(g, as) ==
  LET args == IF g.r = "" THEN as ELSE Tail(as)
  IN  Img(args) \union (IF g.op \in Keeping THEN { as[1] } ELSE {})

(* Values of the registers before the call.                                 *)
Inits(g, as) ==
  LET rs == Img(as) IN
  { f \in [rs -> UNION { Classes(x[1]) \union Dirty(x[1]) : x \in rs }] :
      \A x \in rs : f[x] \in IF x \in ReadRegs(g, as) THEN Classes(x[1]) ELSE Dirty(x[1]) }

\* the owner of an object overwrites it in place
Overwrite(x, cl) == [op |-> "load", r |-> RegName(x), a |-> << >>, cls |-> cl, n |-> 0]

Call(g, as, in, n) ==
  [op |-> g.op, r |-> IF g.r = "" THEN "" ELSE RegName(as[1]),
   a |-> LET t == IF g.r = "" THEN as ELSE Tail(as) IN [k \in 1..Len(t) |-> RegName(t[k])],
   cls |-> in, n |-> n]
=============================================================================
