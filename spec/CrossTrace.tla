----------------------------- MODULE CrossTrace -----------------------------
(***************************************************************************)
(* One specification, many builds.  TRACE_FILE and OTHER_FILE hold, line   *)
(* by line, the same histories performed by two builds of the library.     *)
(* Machine is deterministic in everything a program can see: scalars,      *)
(* encodings, flags, errors, text, the group element of a point and the    *)
(* affine point of a curve form.  Both builds must therefore show the      *)
(* same.  Where the specification leaves a choice (the sign of a root, the *)
(* representative a decoding gives, what a root of a non-square is) builds *)
(* may differ, and registers that hold such a choice are free: what is     *)
(* computed from them is not compared.                                     *)
(***************************************************************************)
EXTENDS Machine, Ristretto255, Json, IOUtils

One == ndJsonDeserialize(IOEnv.TRACE_FILE)
Two == ndJsonDeserialize(IOEnv.OTHER_FILE)
Starts == { k \in 1..Len(One) : One[k].op = "begin" }

VARIABLES i, free, verdict
vars == << i, free, verdict >>

Init == i \in Starts /\ free = {} /\ verdict = "ok"

ValidObs(rv) == ExtValid(N(rv[1]), N(rv[2]), N(rv[3]), N(rv[4]))
SamePoint(e, t) ==
  IF ValidObs(e.rv) THEN ObsPoint(t.rv, AffOf(e.rv)) ELSE ~ValidObs(t.rv)
SameExt(e, t) ==
  IF ValidObs(e.rv) THEN ObsExt(t.rv, AffOf(e.rv)) ELSE ~ValidObs(t.rv)
SameComp(e, t) ==
  IF N(e.rv[3]) # FZero /\ N(e.rv[4]) # FZero THEN ObsComp(t.rv, AffOfComp(e.rv))
  ELSE N(t.rv[3]) = FZero \/ N(t.rv[4]) = FZero
SameProj(e, t) ==
  IF N(e.rv[3]) # FZero THEN ObsProj(t.rv, AffOf(e.rv)) ELSE N(t.rv[3]) = FZero

CoordExt == { "XLoad", "XZero", "XBase", "XTorsion1", "XTorsion2", "XTorsion3", "XSet", "XAdd", "XSub",
  "XDouble", "XNeg", "XSetCompleted", "XMul", "XVarMul", "XTMul", "XTVarMul", "XBaseMul", "XBaseVarMul", "XRerand" }
CoordComp == { "CAdd", "CSub", "CDoubleX", "CDouble", "CAddNiels", "CSubNiels", "CQuartic" }
CoordProj == { "JZero", "JSetExtended", "JSetCompleted" }
Choice == { "XSetRistretto", "CElligator", "FSqrt", "FInvSqrt", "FInvSqrtI", "XToQuartic" }

\* what both show, up to the coordinates of the receiver
SameFlags(e, t) ==
  IF e.pan # "" \/ t.pan # "" THEN (e.pan # "") = (t.pan # "")
  ELSE e.ok = t.ok /\ (e.out = t.out \/ (~e.ok /\ e.op \in Queries))
SameValue(e, t) ==
  \/ e.pan # "" \/ e.rv = t.rv
  \/ ~e.ok /\ e.op \in PointOps
  \/ e.op \in Choice
  \/ /\ Len(e.rv) = Len(t.rv)
     /\ CASE e.op \in PointOps -> SamePoint(e, t)
          [] e.op \in CoordExt \union { "XCondSet", "XString" } -> Len(e.rv) = 4 /\ SameExt(e, t)
          [] e.op \in CoordComp \union { "CString" } -> Len(e.rv) = 4 /\ SameComp(e, t)
          [] e.op \in CoordProj -> SameProj(e, t)
          [] OTHER -> FALSE
  \/ e.op = "XElligatorInverse" /\ Range(e.rv) = Range(t.rv)
Freed(e, t) == IF e.op \in Choice /\ e.rv # t.rv THEN { e.r } ELSE {}

Verdict(e, t) ==
  IF e.op # t.op \/ e.a # t.a \/ e.r # t.r \/ e.in # t.in THEN "other operation"
  ELSE IF ~SameFlags(e, t) THEN "flags"
  ELSE IF ~SameValue(e, t) THEN "values"
  ELSE "ok"

Next == /\ verdict = "ok"
        /\ i < Len(One) /\ i < Len(Two)
        /\ One[i + 1].op # "begin"
        /\ i' = i + 1
        /\ LET e == One[i + 1]  t == Two[i + 1] IN
             IF Reads(e) \intersect free # {}
             THEN verdict' = "ok" /\ free' = free \union { e.r }
             ELSE verdict' = Verdict(e, t) /\ free' = (free \ { e.r }) \union Freed(e, t)
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
