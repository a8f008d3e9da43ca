-------------------------------- MODULE Scope --------------------------------
(***************************************************************************)
(* Which transitions of Machine each property judges.  A history may use   *)
(* other operations to reach a state; if one of those deviates, that is    *)
(* another property's business: the history goes on from the value that    *)
(* was observed, or ends when that is none.                                *)
(***************************************************************************)
EXTENDS Machine

PointApi == PointOps \union PointQueries \union { "TCompute" }
ScalarApi == ScalarOps \union ScalarQueries

Scope(prop) ==
  CASE prop = "C01" -> { "PZero", "PBase", "PSet", "PAdd", "PSub", "PNeg", "PDouble" }
    [] prop = "C02" -> \* its histories decode only what encoding returned
                       { "PBytes", "PBytesInto", "PMarshalBinary", "PMarshalText", "PString", "XRistretto",
                         "XRistrettoInto", "PSetBytes", "PUnmarshalText" }
    [] prop = "C03" -> { "PSetBytes", "PUnmarshalBinary", "XSetRistretto", "PBytes" }
    [] prop = "C04" -> { "PMul", "PPubMul", "PMulTable", "PPubMulTable", "PMulBase", "PPubMulBase", "TCompute" }
    [] prop = "C05" -> { "SZero", "SOne", "SSet", "SAdd", "SSub", "SNeg", "SMul", "SSquare", "SMulAdd",
                         "SMulSub", "SInverse" }
    [] prop = "C06" -> { "SSetBytes", "SSetBytesStrict", "SSetReduced", "SSetBigInt", "SSetUint64",
                         "SUnmarshalBinary", "SBytes", "SBytesInto", "SBigInt", "SMarshalBinary" }
    [] prop = "C07" -> { "PElligator", "PDerive", "PDeriveDalek", "SDerive", "SDeriveShort", "CElligator" }
    [] prop = "C08" -> { "PSetLizard", "PLizard", "PLizardInto", "XElligatorInverse" }
    [] prop = "C09" -> { "PEquals", "PEqualsI", "SEquals", "SEqualsI", "SIsNonZeroI", "PCondSet", "SCondSet",
                         "XRistrettoEqualsI", "XCondSet" }
    [] prop = "C11" -> { "PMarshalText", "PString", "PUnmarshalText", "PMarshalBinary", "PUnmarshalBinary",
                         "SMarshalText", "SString", "SUnmarshalText", "SMarshalBinary", "SUnmarshalBinary" }
    [] prop = "C12" -> FieldOps \union FieldQueries
    [] prop = "C13" -> CurveOps \union CurveQueries \union { "UCompute" }
    [] prop = "C18" -> \* histories of the C reference, which has no operations of the curve level
                       PointApi \union ScalarApi \union FieldOps \union FieldQueries
                       \union CrefPointOps \union CrefFieldOps \union CrefQueries
    [] prop = "all" -> PointApi \union ScalarApi \union FieldOps \union FieldQueries \union CurveOps
                       \union CurveQueries \union TableOps
=============================================================================
