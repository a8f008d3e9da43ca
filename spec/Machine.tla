------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The library as a register machine.  A state maps register names to      *)
(* values of the specification:                                            *)
(*   p*  Point: a representative << x, y >> of a group element             *)
(*   s*  Scalar: a number below L                                          *)
(*   t*  ScalarMultTable: the element it was computed for                  *)
(*   f*  FieldElement: a number below P                                    *)
(*   x*  ExtendedPoint, c* CompletedPoint, j* ProjectivePoint,             *)
(*   n*  NielsPoint, u* edwards25519.ScalarMultTable: affine points of E   *)
(*   q*  JacobiPoint: << s, t >> on the quartic                            *)
(* One operation of the API is one transition.  Step(reg, e) is the        *)
(* transition for the operation recorded in the event e, and says whether  *)
(* what the implementation showed (e.rv: the receiver's coordinates or     *)
(* limbs, e.out, e.ok, e.pan) is what the specification requires:          *)
(* [v: new value of the receiver, has: whether it then has a value,        *)
(*  good: BOOLEAN, want: text].                                            *)
(*                                                                         *)
(* Frame: every operation writes its receiver only (e.chg lists any other  *)
(* register, input buffer or shared table whose memory changed) and        *)
(* returns its receiver (e.ret).                                           *)
(***************************************************************************)
EXTENDS Ristretto, Text, TLC, Integers, Sequences, FiniteSets

Frame(e) == e.ret /\ e.chg = << >>

N(h) == BFromLE(h)
B01(b) == IF b THEN "1" ELSE "0"

-----------------------------------------------------------------------------
(* What an observation denotes.                                             *)

ObsPoint(rv, q) ==
  LET X == N(rv[1])  Y == N(rv[2])  Z == N(rv[3])  T == N(rv[4])
  IN  ExtValid(X, Y, Z, T) /\ ExtInCoset(X, Y, Z, q)
ObsExt(rv, q) ==
  LET X == N(rv[1])  Y == N(rv[2])  Z == N(rv[3])  T == N(rv[4])
  IN  ExtValid(X, Y, Z, T) /\ ExtIs(X, Y, Z, q)
ObsComp(rv, q) ==
  LET X == N(rv[1])  Y == N(rv[2])  Z == N(rv[3])  T == N(rv[4])
  IN  Z # FZero /\ T # FZero /\ X = FMul(q[1], Z) /\ Y = FMul(q[2], T)
ObsProj(rv, q) ==
  LET X == N(rv[1])  Y == N(rv[2])  Z == N(rv[3])
  IN  Z # FZero /\ ExtIs(X, Y, Z, q)
ObsNiels(rv, q) ==
  /\ N(rv[1]) = FAdd(q[2], q[1]) /\ N(rv[2]) = FSub(q[2], q[1])
  /\ N(rv[3]) = FMul(FTwo, FMul(D, FMul(q[1], q[2])))
AffOf(rv) == LET zi == FInv(N(rv[3])) IN << FMul(N(rv[1]), zi), FMul(N(rv[2]), zi) >>
AffOfComp(rv) == << FDiv(N(rv[1]), N(rv[3])), FDiv(N(rv[2]), N(rv[4])) >>

(* Outcomes.                                                                *)
Out(v, good, want) == [v |-> v, has |-> TRUE, good |-> good, want |-> IF good THEN "" ELSE want]
None(good, want) == [v |-> << >>, has |-> FALSE, good |-> good, want |-> IF good THEN "" ELSE want]
PtRes(e, q) == LET g == ObsPoint(e.rv, q) IN
  [v |-> q, has |-> TRUE, good |-> g, want |-> IF g THEN "" ELSE EncodeHex(q)]
ScRes(e, n) == Out(n, N(e.rv[1]) = n, BToLE(n, 32))
FeRes(e, n) == Out(n, N(e.rv[1]) = n, BToLE(n, 32))
ExtRes(e, q) == Out(q, ObsExt(e.rv, q), "affine " \o BToLE(q[1], 32) \o " " \o BToLE(q[2], 32))
CompRes(e, q) == Out(q, ObsComp(e.rv, q), "affine " \o BToLE(q[1], 32) \o " " \o BToLE(q[2], 32))
ProjRes(e, q) == Out(q, ObsProj(e.rv, q), "affine " \o BToLE(q[1], 32) \o " " \o BToLE(q[2], 32))
NielsRes(e, q) == Out(q, ObsNiels(e.rv, q), "affine " \o BToLE(q[1], 32) \o " " \o BToLE(q[2], 32))
\* ConditionalSet: e.rv holds the receiver's coordinates, then those it must have
CondRes(e, o) ==
  LET k == Len(e.rv) \div 2
      same == SubSeq(e.rv, 1, k) = SubSeq(e.rv, k + 1, 2 * k)
  IN  [o EXCEPT !.good = @ /\ same, !.want = IF same THEN @ ELSE "all coordinates of the source"]
\* a query: output only
Ask(e, out) == None(e.out = out, out)
AskOk(e, ok, out) == None(e.ok = ok /\ (ok => e.out = out), (IF ok THEN "ok " ELSE "error ") \o out)

-----------------------------------------------------------------------------
(* Decoding into a point: success sets the element, failure leaves the      *)
(* receiver unusable until it is set again.                                 *)
PtDecode(e, q) ==
  IF q = << >> THEN None(~e.ok, "rejected")
  ELSE LET r == PtRes(e, q) IN [r EXCEPT !.good = e.ok /\ @, !.want = "accepted " \o @]
\* into a scalar: failure leaves it as it was
ScDecode(e, old, ok, n) ==
  IF ok THEN LET r == ScRes(e, n) IN [r EXCEPT !.good = e.ok /\ @, !.want = "accepted " \o @]
  ELSE Out(old, ~e.ok /\ N(e.rv[1]) = old, "rejected, unchanged")

BytesNum(b) == BFromBytes(b)
Scalar253(n) == BMod(BLow(n, 253), L)
TextHex(b) == BytesToHex(B64Encode(b))
BytesOfScalar(n) == BToBytes(n, 32)
BytesOfPoint(q) == BToBytes(Encode(q), 32)

(* Lizard: 16 bytes of data between check bits of their SHA-256.            *)
LizardNum(data) ==
  LET h == Sha256(data)
      b == HexToBytes(HexSub(h, 0, 8) \o data \o HexSub(h, 24, 32))
  IN  BFromBytes([b EXCEPT ![1] = (@ \div 2) * 2, ![32] = @ % 64])
LizardData(q) ==
  { d \in { HexSub(BToLE(r, 32), 8, 24) : r \in Preimages(q) } :
      LizardNum(d) \in Preimages(q) }

-----------------------------------------------------------------------------
PointOps == { "PZero", "PBase", "PSet", "PAdd", "PSub", "PNeg", "PDouble", "PMul", "PPubMul",
  "PMulTable", "PPubMulTable", "PMulBase", "PPubMulBase", "PElligator", "PDerive",
  "PDeriveDalek", "PRand", "PSetLizard", "PSetBytes", "PUnmarshalBinary", "PUnmarshalText",
  "PCondSet", "PRerand" }
PointStep(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]] IN
  CASE op = "PZero" -> PtRes(e, Neutral)
    [] op = "PBase" -> PtRes(e, BasePoint)
    [] op = "PSet" -> PtRes(e, A(1))
    [] op = "PAdd" -> PtRes(e, EdAdd(A(1), A(2)))
    [] op = "PSub" -> PtRes(e, EdSub(A(1), A(2)))
    [] op = "PNeg" -> PtRes(e, EdNeg(A(1)))
    [] op = "PDouble" -> PtRes(e, EdDbl(A(1)))
    [] op \in { "PMul", "PPubMul", "PMulTable", "PPubMulTable" } -> PtRes(e, EdMul(A(2), A(1)))
    [] op \in { "PMulBase", "PPubMulBase" } -> PtRes(e, EdMul(A(1), BasePoint))
    [] op \in { "PElligator", "PRand" } -> PtRes(e, MapHex(e.in))
    [] op = "PDerive" -> PtRes(e, MapHex(HexSub(Sha512(e.in), 0, 32)))
    [] op = "PDeriveDalek" ->
         LET h == Sha512(e.in) IN PtRes(e, EdAdd(MapHex(HexSub(h, 0, 32)), MapHex(HexSub(h, 32, 64))))
    [] op = "PSetLizard" -> PtRes(e, Map(LizardNum(e.in)))
    [] op = "PSetBytes" -> PtDecode(e, DecodeHex(e.in))
    [] op = "PUnmarshalBinary" -> PtDecode(e, IF HexLen(e.in) = 32 THEN DecodeHex(e.in) ELSE << >>)
    [] op = "PUnmarshalText" ->
         LET t == PointText(HexToBytes(e.in)) IN PtDecode(e, IF t[1] THEN Decode(BytesNum(t[2])) ELSE << >>)
    [] op = "PCondSet" -> CondRes(e, PtRes(e, IF e.n = 1 THEN A(1) ELSE reg[e.r]))
    [] op = "PRerand" -> PtRes(e, reg[e.r])

PointQueries == { "PBytes", "PBytesInto", "PMarshalBinary", "PMarshalText", "PString",
  "PEquals", "PEqualsI", "PLizard", "PLizardInto" }
PointQuery(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]] IN
  CASE op \in { "PBytes", "PBytesInto", "PMarshalBinary" } -> Ask(e, EncodeHex(A(1)))
    [] op \in { "PMarshalText", "PString" } -> Ask(e, TextHex(BytesOfPoint(A(1))))
    [] op \in { "PEquals", "PEqualsI" } -> Ask(e, B01(SameElement(A(1), A(2))))
    [] op \in { "PLizard", "PLizardInto" } ->
         LET ds == LizardData(A(1)) IN
           IF Cardinality(ds) = 1 THEN AskOk(e, TRUE, CHOOSE d \in ds : TRUE) ELSE AskOk(e, FALSE, "none")

-----------------------------------------------------------------------------
ScalarOps == { "SLoad", "SZero", "SOne", "SSet", "SAdd", "SSub", "SNeg", "SMul", "SSquare",
  "SMulAdd", "SMulSub", "SInverse", "SSetBytes", "SSetBytesStrict", "SSetReduced", "SSetBigInt",
  "SSetUint64", "SDerive", "SDeriveShort", "SRand", "SCondSet", "SUnmarshalBinary", "SUnmarshalText" }
ScalarStep(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]]
      Old == IF e.r \in DOMAIN reg THEN reg[e.r] ELSE FZero
  IN
  CASE op = "SLoad" -> ScRes(e, N(e.in))
    [] op = "SZero" -> ScRes(e, FZero)
    [] op = "SOne" -> ScRes(e, FOne)
    [] op = "SSet" -> ScRes(e, A(1))
    [] op = "SAdd" -> ScRes(e, BAddMod(A(1), A(2), L))
    [] op = "SSub" -> ScRes(e, BSubMod(A(1), A(2), L))
    [] op = "SNeg" -> ScRes(e, BNegMod(A(1), L))
    [] op = "SMul" -> ScRes(e, BMulMod(A(1), A(2), L))
    [] op = "SSquare" -> ScRes(e, BMulMod(A(1), A(1), L))
    [] op = "SMulAdd" -> ScRes(e, BAddMod(BMul(A(1), A(2)), A(3), L))
    [] op = "SMulSub" -> ScRes(e, BSubMod(BMul(A(1), A(2)), A(3), L))
    [] op = "SInverse" -> ScRes(e, BInvMod(A(1), L))
    [] op = "SSetBytes" -> ScRes(e, Scalar253(N(e.in)))
    [] op = "SSetBytesStrict" -> ScDecode(e, Old, BLt(N(e.in), L), N(e.in))
    [] op \in { "SSetReduced", "SRand" } -> ScRes(e, BMod(N(e.in), L))
    [] op = "SSetBigInt" ->
         LET m == BMod(N(e.in), L) IN ScRes(e, IF e.n < 0 THEN BNegMod(m, L) ELSE m)
    [] op = "SSetUint64" -> ScRes(e, N(e.in))
    [] op = "SDerive" -> ScRes(e, BMod(N(Sha512(e.in)), L))
    [] op = "SDeriveShort" -> ScRes(e, N(HexSub(Sha512(e.in), 0, 16)))
    [] op = "SCondSet" -> CondRes(e, ScRes(e, IF e.n = 1 THEN A(1) ELSE Old))
    [] op = "SUnmarshalBinary" -> ScDecode(e, Old, HexLen(e.in) = 32, Scalar253(N(e.in)))
    [] op = "SUnmarshalText" ->
         LET t == ScalarText(HexToBytes(e.in)) IN ScDecode(e, Old, t[1], Scalar253(BytesNum(t[2])))

ScalarQueries == { "SBytes", "SBytesInto", "SMarshalBinary", "SBigInt", "SMarshalText", "SString",
  "SEquals", "SEqualsI", "SIsNonZeroI" }
ScalarQuery(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]] IN
  CASE op \in { "SBytes", "SBytesInto", "SMarshalBinary", "SBigInt" } -> Ask(e, BToLE(A(1), 32))
    [] op \in { "SMarshalText", "SString" } -> Ask(e, TextHex(BytesOfScalar(A(1))))
    [] op \in { "SEquals", "SEqualsI" } -> Ask(e, B01(A(1) = A(2)))
    [] op = "SIsNonZeroI" -> Ask(e, B01(A(1) # FZero))

-----------------------------------------------------------------------------
(* The field.  Square roots are specified up to the sign the documentation  *)
(* leaves open; the receiver then holds what was observed.                  *)
FieldOps == { "FLoad", "FZero", "FOne", "FI", "FSet", "FAdd", "FSub", "FNeg", "FMul", "FSquare",
  "FDoubledSquare", "FInverse", "FExp22523", "FSqrt", "FInvSqrt", "FInvSqrtI", "FAbs", "FCondSet",
  "FSetBytes", "FSetBigInt", "FLoosen" }
FieldStep(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]]  Got == N(e.rv[1]) IN
  CASE op \in { "FLoad", "FSetBytes" } -> FeRes(e, BMod(BLow(N(e.in), 255), P))
    [] op = "FZero" -> FeRes(e, FZero)
    [] op = "FOne" -> FeRes(e, FOne)
    [] op = "FI" -> FeRes(e, FI)
    [] op = "FSet" -> FeRes(e, A(1))
    [] op = "FAdd" -> FeRes(e, FAdd(A(1), A(2)))
    [] op = "FSub" -> FeRes(e, FSub(A(1), A(2)))
    [] op = "FNeg" -> FeRes(e, FNeg(A(1)))
    [] op = "FMul" -> FeRes(e, FMul(A(1), A(2)))
    [] op = "FSquare" -> FeRes(e, FSq(A(1)))
    [] op = "FDoubledSquare" -> FeRes(e, FMul(FTwo, FSq(A(1))))
    [] op = "FInverse" -> FeRes(e, FInv(A(1)))
    [] op = "FExp22523" -> FeRes(e, FPow(A(1), E22523))
    [] op = "FSqrt" ->      \* of a square: the even root
         IF IsSquare(A(1)) THEN FeRes(e, FSqrt(A(1))) ELSE Out(Got, TRUE, "")
    [] op = "FInvSqrt" ->   \* of a square: a root of the inverse, 0 for 0
         Out(Got, BLt(Got, P) /\ (IsSquare(A(1)) => FMul(FSq(Got), A(1)) = IF A(1) = FZero THEN FZero ELSE FOne)
                  /\ (A(1) = FZero => Got = FZero), "1/sqrt(a)")
    [] op = "FInvSqrtI" ->  \* flag 1: 1/sqrt(a), flag 0: 1/sqrt(i a)
         Out(Got, IF A(1) = FZero THEN Got = FZero
                  ELSE /\ e.out = B01(IsSquare(A(1)))
                       /\ FMul(FSq(Got), IF IsSquare(A(1)) THEN A(1) ELSE FMul(FI, A(1))) = FOne,
             "1/sqrt(a) or 1/sqrt(i*a), flag " \o B01(IsSquare(A(1))))
    [] op = "FAbs" -> FeRes(e, FAbs(A(1)))
    [] op = "FCondSet" -> CondRes(e, FeRes(e, IF e.n = 1 THEN A(1) ELSE reg[e.r]))
    [] op = "FSetBigInt" ->
         LET m == BMod(N(e.in), P) IN FeRes(e, IF e.n < 0 THEN FNeg(m) ELSE m)
    [] op = "FLoosen" -> FeRes(e, reg[e.r])

FieldQueries == { "FBytes", "FBytesInto", "FBigInt", "FString", "FIsNegativeI", "FIsNonZeroI", "FIsOneI",
  "FEqualsI", "FEquals" }
FieldQuery(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]] IN
  CASE op \in { "FBytes", "FBytesInto", "FBigInt", "FString" } -> Ask(e, BToLE(A(1), 32))
    [] op = "FIsNegativeI" -> Ask(e, B01(IsNeg(A(1))))
    [] op = "FIsNonZeroI" -> Ask(e, B01(A(1) # FZero))
    [] op = "FIsOneI" -> Ask(e, B01(A(1) = FOne))
    [] op \in { "FEqualsI", "FEquals" } -> Ask(e, B01(A(1) = A(2)))

-----------------------------------------------------------------------------
(* The curve level: values are exact points of E, not cosets.               *)

(* A known finding (known-findings.txt, C13-base): the package's base point *)
(* and base table are those of B + (-i, 0), another representative of the   *)
(* documented point B = (x, 4/5).  Any other deviation is a violation.      *)
KnownBase(e, n) ==
  LET o == ExtRes(e, EdMul(n, BasePoint))  k == ExtRes(e, EdMul(n, EdAdd(BasePoint, T3)))
  IN  IF o.good \/ ~k.good THEN o
      ELSE IF PrintT("KNOWN C13-base") THEN k ELSE o

CurveOps == { "XLoad", "XZero", "XBase", "XTorsion1", "XTorsion2", "XTorsion3", "XSet", "XAdd", "XSub",
  "XDouble", "XNeg", "XSetCompleted", "XMul", "XVarMul", "XTMul", "XTVarMul", "XBaseMul", "XBaseVarMul",
  "XCondSet", "XSetRistretto", "XRerand",
  "CAdd", "CSub", "CDoubleX", "CDouble", "CAddNiels", "CSubNiels", "CQuartic", "CElligator",
  "JZero", "JSetExtended", "JSetCompleted",
  "NZero", "NSet", "NNeg", "NSetExtended", "NCondSet", "QLoad", "QDual" }
CurveStep(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]] IN
  CASE op = "XLoad" -> \* the recorder made up a point: it must be one, and have its coordinates
         LET q == << N(HexSub(e.in, 0, 32)), N(HexSub(e.in, 32, 64)) >> IN Out(q, OnCurve(q) /\ ObsExt(e.rv, q), "point")
    [] op = "XZero" -> ExtRes(e, Neutral)
    [] op = "XBase" -> KnownBase(e, FOne)
    [] op = "XTorsion1" -> ExtRes(e, T1)
    [] op = "XTorsion2" -> ExtRes(e, T2)
    [] op = "XTorsion3" -> ExtRes(e, T3)
    [] op \in { "XSet", "XSetCompleted" } -> ExtRes(e, A(1))
    [] op = "XAdd" -> ExtRes(e, EdAdd(A(1), A(2)))
    [] op = "XSub" -> ExtRes(e, EdSub(A(1), A(2)))
    [] op = "XDouble" -> ExtRes(e, EdDbl(A(1)))
    [] op = "XNeg" -> ExtRes(e, EdNeg(A(1)))
    [] op \in { "XMul", "XVarMul", "XTMul", "XTVarMul" } -> ExtRes(e, EdMul(N(e.in), A(1)))
    [] op \in { "XBaseMul", "XBaseVarMul" } -> KnownBase(e, N(e.in))
    [] op = "XCondSet" -> CondRes(e, ExtRes(e, IF e.n = 1 THEN A(1) ELSE reg[e.r]))
    [] op = "XRerand" -> ExtRes(e, reg[e.r])
    [] op = "XSetRistretto" -> \* some representative of the element
         LET q == DecodeHex(e.in) IN
           IF q = << >> THEN None(~e.ok, "rejected")
           ELSE Out(AffOf(e.rv), e.ok /\ ObsPoint(e.rv, q), "accepted " \o e.in)
    [] op = "CAdd" -> CompRes(e, EdAdd(A(1), A(2)))
    [] op = "CSub" -> CompRes(e, EdSub(A(1), A(2)))
    [] op \in { "CDoubleX", "CDouble" } -> CompRes(e, EdDbl(A(1)))
    [] op = "CAddNiels" -> CompRes(e, EdAdd(A(1), A(2)))
    [] op = "CSubNiels" -> CompRes(e, EdSub(A(1), A(2)))
    [] op = "CQuartic" -> CompRes(e, FromQuartic(A(1)[1], A(1)[2]))
    [] op = "CElligator" -> \* some representative of the element
         LET q == AffOfComp(e.rv) IN
           Out(q, N(e.rv[3]) # FZero /\ N(e.rv[4]) # FZero /\ q \in Coset(Map(A(1))), EncodeHex(Map(A(1))))
    [] op = "JZero" -> ProjRes(e, Neutral)
    [] op \in { "JSetExtended", "JSetCompleted" } -> ProjRes(e, A(1))
    [] op = "NZero" -> NielsRes(e, Neutral)
    [] op \in { "NSet", "NSetExtended" } -> NielsRes(e, A(1))
    [] op = "NNeg" -> NielsRes(e, EdNeg(A(1)))
    [] op = "NCondSet" -> CondRes(e, NielsRes(e, IF e.n = 1 THEN A(1) ELSE reg[e.r]))
    [] op = "QLoad" -> \* the recorder made up a point of the quartic
         LET q == << N(HexSub(e.in, 0, 32)), N(HexSub(e.in, 32, 64)) >> IN
           Out(q, OnQuartic(q[1], q[2]) /\ N(e.rv[1]) = q[1] /\ N(e.rv[2]) = q[2], "quartic point")
    [] op = "QDual" -> Out(<< FNeg(A(1)[1]), FNeg(A(1)[2]) >>,
                           N(e.rv[1]) = FNeg(A(1)[1]) /\ N(e.rv[2]) = FNeg(A(1)[2]), "(-s,-t)")

TableOps == { "TCompute", "UCompute" }

Range(s) == { s[k] : k \in 1..Len(s) }
CurveQueries == { "XRistretto", "XRistrettoInto", "XRistrettoEqualsI", "XToQuartic", "XElligatorInverse",
                  "XString", "CString", "QString" }
CurveQuery(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]] IN
  CASE op \in { "XRistretto", "XRistrettoInto" } -> Ask(e, EncodeHex(A(1)))
    [] op = "XRistrettoEqualsI" -> Ask(e, B01(SameElement(A(1), A(2))))
    [] op = "XString" -> \* what String writes: the coordinates and the encoding
         None(Len(e.rv) = 4 /\ ObsExt(e.rv, A(1)) /\ e.out = EncodeHex(A(1)), EncodeHex(A(1)))
    [] op = "CString" -> None(Len(e.rv) = 4 /\ ObsComp(e.rv, A(1)) /\ e.out = EncodeHex(A(1)), EncodeHex(A(1)))
    [] op = "QString" -> None(Len(e.rv) = 2 /\ N(e.rv[1]) = A(1)[1] /\ N(e.rv[2]) = A(1)[2], "(s, t)")
    [] op = "XToQuartic" -> \* rv: s1 t1 s2 t2 ...; one point above each representative but (0,-1)
         LET qs == { << N(e.rv[2*k - 1]), N(e.rv[2*k]) >> : k \in 1..(Len(e.rv) \div 2) } IN
           None(/\ \A st \in qs : OnQuartic(st[1], st[2]) /\ st[2] # FZero
                /\ { FromQuartic(st[1], st[2]) : st \in qs } = Coset(A(1)) \ { T1 }, "quartic points")
    [] op = "XElligatorInverse" -> \* rv: the elements reported
         None({ N(h) : h \in Range(e.rv) } = Preimages(A(1)),
             ToString({ BToLE(r, 32) : r \in Preimages(A(1)) }))

-----------------------------------------------------------------------------
(* What only the C reference has: sums of multiples, roots with the sign    *)
(* left open, the recodings of scalars (signed digits, written plus 128).   *)
CrefPointOps == { "KMulti", "KQuartic" }
CrefFieldOps == { "KTriple", "KSqrt", "KSqrtI" }
CrefQueries == { "KIsNeutral", "KIsOne", "KBit", "KBitLen", "KWindow3", "KWindow5", "KSlide" }
SumOfMultiples(ps, ss) ==
  LET F[k \in 0..Len(ps)] == IF k = 0 THEN Neutral ELSE EdAdd(F[k-1], EdMul(ss[k], ps[k])) IN F[Len(ps)]
CrefStep(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]] IN
  CASE op = "KMulti" ->
         LET k == Len(e.a) \div 2 IN
           PtRes(e, SumOfMultiples([i \in 1..k |-> A(i)], [i \in 1..k |-> A(k + i)]))
    [] op = "KQuartic" -> ExtRes(e, FromQuartic(N(HexSub(e.in, 0, 32)), N(HexSub(e.in, 32, 64))))
    [] op = "KTriple" -> FeRes(e, FAdd(A(1), FMul(FTwo, A(1))))
    [] op = "KSqrt" ->      \* of a square: a root
         LET got == N(e.rv[1]) IN Out(got, IsSquare(A(1)) => FSq(got) = A(1), "sqrt(a)")
    [] op = "KSqrtI" ->     \* flag 1: sqrt(a), flag 0: sqrt(i a)
         LET got == N(e.rv[1])  sq == IsSquare(A(1)) IN
           Out(got, IF A(1) = FZero THEN got = FZero
                    ELSE e.out = B01(sq) /\ FSq(got) = IF sq THEN A(1) ELSE FMul(FI, A(1)),
               "sqrt(a) or sqrt(i*a), flag " \o B01(sq))
\* the digits ds, least significant first and 2^w apart, sum up to n
Recodes(ds, w, n) ==
  LET Sum(f(_)) ==
        LET S[k \in 1..(Len(ds) + 1)] == \* digits k, k+1, ...
              IF k = Len(ds) + 1 THEN FZero ELSE BAdd(BMul(S[k+1], BPow2(w)), BFromInt(f(ds[k])))
        IN  S[1]
  IN  Sum(LAMBDA d : IF d > 128 THEN d - 128 ELSE 0) = BAdd(Sum(LAMBDA d : IF d < 128 THEN 128 - d ELSE 0), n)
CrefQuery(reg, e) ==
  LET op == e.op  A(k) == reg[e.a[k]]
      rec(w) == None(Recodes(HexToBytes(e.out), w, A(1)), "digits of " \o BToLE(A(1), 32))
  IN
  CASE op = "KIsNeutral" -> Ask(e, B01(SameElement(A(1), Neutral)))
    [] op = "KIsOne" -> Ask(e, B01(A(1) = FOne))
    [] op = "KBit" -> Ask(e, ToString(BBit(A(1), e.n)))
    [] op = "KBitLen" -> Ask(e, ToString(BBitLen(A(1))))
    [] op = "KWindow3" -> rec(3)
    [] op = "KWindow5" -> rec(5)
    [] op = "KSlide" ->     \* of width e.n: odd digits and zeroes
         LET m == 2 ^ (e.n - 1)  ds == HexToBytes(e.out) IN
           None(/\ Recodes(ds, 1, A(1))
                /\ \A d \in Range(ds) : d # 128 => d % 2 = 1 /\ d > 128 - m /\ d < 128 + m,
                "digits of " \o BToLE(A(1), 32))

-----------------------------------------------------------------------------
Queries == PointQueries \union ScalarQueries \union FieldQueries \union CurveQueries \union CrefQueries

Judge(reg, e) ==
  IF e.op \in PointOps THEN PointStep(reg, e)
  ELSE IF e.op \in ScalarOps THEN ScalarStep(reg, e)
  ELSE IF e.op \in FieldOps THEN FieldStep(reg, e)
  ELSE IF e.op \in CurveOps THEN CurveStep(reg, e)
  ELSE IF e.op \in TableOps THEN Out(reg[e.a[1]], TRUE, "")
  ELSE IF e.op \in PointQueries THEN PointQuery(reg, e)
  ELSE IF e.op \in ScalarQueries THEN ScalarQuery(reg, e)
  ELSE IF e.op \in FieldQueries THEN FieldQuery(reg, e)
  ELSE IF e.op \in CurveQueries THEN CurveQuery(reg, e)
  ELSE IF e.op \in CrefPointOps \union CrefFieldOps THEN CrefStep(reg, e)
  ELSE IF e.op \in CrefQueries THEN CrefQuery(reg, e)
  ELSE Assert(FALSE, << "unknown operation", e.op >>)

(* The registers an operation reads: its arguments, and the receiver where  *)
(* its old value can survive.                                               *)
Keeps == { "PCondSet", "SCondSet", "FCondSet", "XCondSet", "NCondSet", "PRerand", "XRerand", "FLoosen" }
Reads(e) == Range(e.a) \union (IF e.op \in Keeps THEN { e.r } ELSE {})
Readable(reg, e) == Reads(e) \subseteq DOMAIN reg

Step(reg, e) ==
  IF e.pan # "" THEN None(FALSE, "no panic") ELSE Judge(reg, e)

(* The value an observed receiver has by itself, where it has one: used to  *)
(* go on after an operation that a property does not judge.                 *)
Even(q) == EdMul(L, q) \in Torsion4
Observed(e) ==
  LET o(ok, v) == IF ok THEN Out(v, TRUE, "") ELSE None(TRUE, "") IN
  IF e.pan # "" \/ ~e.ok \/ Len(e.rv) = 0 THEN None(TRUE, "")
  ELSE IF e.op \in PointOps THEN
    LET X == N(e.rv[1])  Y == N(e.rv[2])  Z == N(e.rv[3])  T == N(e.rv[4]) IN
      IF ExtValid(X, Y, Z, T) THEN o(Even(AffOf(e.rv)), AffOf(e.rv)) ELSE None(TRUE, "")
  ELSE IF e.op \in ScalarOps THEN o(BLt(N(e.rv[1]), L), N(e.rv[1]))
  ELSE IF e.op \in FieldOps THEN Out(N(e.rv[1]), TRUE, "")
  ELSE None(TRUE, "")
=============================================================================
