-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text forms: unpadded URL-safe base64 (RFC 4648 section 5) and           *)
(* hexadecimal, on sequences of byte values.  Carriage returns and line    *)
(* feeds inside base64 text are skipped, the unused low bits of the last   *)
(* sextet are not looked at, and padding is not accepted.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

B64Alphabet == [n \in 0..63 |->
   IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 97 + (n - 26)
   ELSE IF n < 62 THEN 48 + (n - 52) ELSE IF n = 62 THEN 45 ELSE 95]
B64Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65
             ELSE IF c >= 97 /\ c <= 122 THEN c - 97 + 26
             ELSE IF c >= 48 /\ c <= 57 THEN c - 48 + 52
             ELSE IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE -1
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 97 + 10
             ELSE IF c >= 65 /\ c <= 70 THEN c - 65 + 10 ELSE -1

NotNewline(c) == c # 10 /\ c # 13
P2(n) == << 1, 2, 4, 8, 16 >>[n + 1]

B64Encode(b) ==
  LET n == (8 * Len(b) + 5) \div 6
      At(k) == IF k <= Len(b) THEN b[k] ELSE 0
      Sextet(k) == LET bit == 6 * k
                       j == bit \div 8
                       off == bit % 8
                       w == At(j + 1) * 256 + At(j + 2)
                   IN  (CASE off = 0 -> w \div 1024 [] off = 2 -> w \div 256
                          [] off = 4 -> w \div 64   [] OTHER -> w \div 16) % 64
  IN  [k \in 1..n |-> B64Alphabet[Sextet(k - 1)]]

\* << ok, bytes >>
B64Decode(txt) ==
  LET s == SelectSeq(txt, NotNewline)
      n == Len(s)
      v == [k \in 1..n |-> B64Val(s[k])]
      Byte(k) == LET bit == 8 * k
                     j == bit \div 6
                     off == bit % 6
                     lo == IF j + 2 <= n THEN v[j + 2] ELSE 0
                 IN  ((v[j + 1] * 64 + lo) \div P2(4 - off)) % 256
  IN  IF (n % 4) = 1 \/ \E k \in 1..n : v[k] = -1 THEN << FALSE, << >> >>
      ELSE << TRUE, [k \in 1..((6 * n) \div 8) |-> Byte(k - 1)] >>

IsHex(txt) == \A k \in 1..Len(txt) : HexVal(txt[k]) # -1
HexDecode(txt) == [k \in 1..(Len(txt) \div 2) |-> 16 * HexVal(txt[2*k - 1]) + HexVal(txt[2*k])]

\* the 32 bytes a text denotes: << ok, bytes >>
PointText(txt) ==
  IF Len(txt) = 64 /\ IsHex(txt) THEN << TRUE, HexDecode(txt) >>
  ELSE LET d == B64Decode(txt) IN << d[1] /\ Len(d[2]) = 32, d[2] >>
ScalarText(txt) == LET d == B64Decode(txt) IN << d[1] /\ Len(d[2]) = 32, d[2] >>
=============================================================================
