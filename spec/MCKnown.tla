------------------------------ MODULE MCKnown ------------------------------
(* Known answers of ristretto255 (RFC 9496, appendix A).                    *)
EXTENDS Ristretto, Ristretto255, TLC, Integers, Sequences

ASSUME OnCurve(BasePoint) /\ EdMul(L, BasePoint) = Neutral
ASSUME FSq(SqrtADm1) = FSub(FNeg(D), FOne) /\ FSq(SqrtM1) = FMinusOne /\ ~IsSquare(D)

Multiples == <<
 "0000000000000000000000000000000000000000000000000000000000000000",
 "e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
 "6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919",
 "94741f5d5d52755ece4f23f044ee27d5d1ea1e2bd196b462166b16152a9d0259",
 "da80862773358b466ffadfe0b3293ab3d9fd53c5ea6c955358f568322daf6a57",
 "e882b131016b52c1d3337080187cf768423efccbb517bb495ab812c4160ff44e",
 "f64746d3c92b13050ed8d80236a7f0007c3b3f962f5ba793d19a601ebb1df403",
 "44f53520926ec81fbd5a387845beb7df85a96a24ece18738bdcfa6a7822a176d",
 "903293d8f2287ebe10e2374dc1a53e0bc887e592699f02d077d5263cdd55601c",
 "02622ace8f7303a31cafc63f8fc48fdc16e1c8c8d234b2f0d6685282a9076031",
 "20706fd788b2720a1ed2a5dad4952b01f413bcf0e7564de8cdc816689e2db95f",
 "bce83f8ba5dd2fa572864c24ba1810f9522bc6004afe95877ac73241cafdab42",
 "e4549ee16b9aa03099ca208c67adafcafa4c3f3e4e5303de6026e3ca8ff84460",
 "aa52e000df2e16f55fb1032fc33bc42742dad6bd5a8fc0be0167436c5948501f",
 "46376b80f409b29dc2b5f6f0c52591990896e5716f41477cd30085ab7f10301e",
 "e0c418f7c8d9c4cdd7395b93ea124f3ad99021bb681dfc3302a9d99a2e53e64e" >>
ASSUME \A k \in 1..16 : EncodeHex(EdMul(BFromInt(k - 1), BasePoint)) = Multiples[k]
ASSUME \A k \in 1..16 : SameElement(DecodeHex(Multiples[k]), EdMul(BFromInt(k - 1), BasePoint))

Bad == <<
 "00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
 "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
 "f3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
 "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
 "0100000000000000000000000000000000000000000000000000000000000000",
 "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
 "ed57ffd8c914fb201471d1c3d245ce3c746fcbe63a3679d51b6a516ebebe0e20",
 "26948d35ca62e643e26a83177332e6b6afeb9d08e4268b650f1f5bbd8d81d371",
 "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" >>
ASSUME \A k \in 1..Len(Bad) : DecodeHex(Bad[k]) = << >>

\* hash-to-group: "Ristretto is traditionally a short shot of espresso coffee"
Msg == "52697374726574746f20697320747261646974696f6e616c6c7920612073686f72742073686f74206f6620657370726573736f20636f66666565"
ASSUME LET h == Sha512(Msg)
       IN  EncodeHex(EdAdd(MapHex(HexSub(h, 0, 32)), MapHex(HexSub(h, 32, 64))))
           = "3066f82a1a747d45120d1740f14358531a8f04bbffe6a819f86dfe50f44a0a46"
ASSUME \A r \in Preimages(Neutral) : ~IsNeg(r)
ASSUME PrintT(<<"neutral preimages", { BToLE(r, 32) : r \in Preimages(Neutral) } >>)
=============================================================================
