----------------------------- MODULE BigNumPure -----------------------------
(***************************************************************************)
(* Natural numbers of any size, as little-endian sequences of base-4096    *)
(* digits without trailing zeros (<<>> is 0).  TLC's integers are 32 bits, *)
(* so the 255-bit field and the 253-bit scalar ring of ristretto255 are    *)
(* written with these.  This module is the definition; module BigNum       *)
(* repeats its operators, where TLC replaces them by a Java class for      *)
(* speed, and MCBigNum compares the two.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 4096

RECURSIVE Norm(_)
Norm(s) == IF Len(s) = 0 \/ s[Len(s)] # 0 THEN s ELSE Norm(SubSeq(s, 1, Len(s) - 1))

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

RECURSIVE BFromInt(_)
BFromInt(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o BFromInt(n \div Base)

RECURSIVE BToInt(_)
BToInt(a) == IF a = << >> THEN 0 ELSE a[1] + Base * BToInt(Tail(a))

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF Dig(a, i) < Dig(b, i) THEN -1
                  ELSE IF Dig(a, i) > Dig(b, i) THEN 1
                  ELSE CmpAt(a, b, i - 1)
BCmp(a, b) == CmpAt(a, b, Max(Len(a), Len(b)))
BLt(a, b) == BCmp(a, b) = -1
BLeq(a, b) == BCmp(a, b) # 1

RECURSIVE AddAt(_, _, _, _)
AddAt(a, b, i, c) ==
  IF i > Max(Len(a), Len(b)) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET t == Dig(a, i) + Dig(b, i) + c
       IN  << t % Base >> \o AddAt(a, b, i + 1, t \div Base)
BAdd(a, b) == AddAt(a, b, 1, 0)

RECURSIVE SubAt(_, _, _, _)
SubAt(a, b, i, c) ==
  IF i > Len(a) THEN << >>
  ELSE LET t == Dig(a, i) - Dig(b, i) - c
       IN  << t % Base >> \o SubAt(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
\* a - b for a >= b
BSub(a, b) == Norm(SubAt(a, b, 1, 0))

RECURSIVE MulDig(_, _, _, _)
MulDig(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET t == a[i] * d + c
       IN  << t % Base >> \o MulDig(a, d, i + 1, t \div Base)

RECURSIVE BMul(_, _)
BMul(a, b) == IF b = << >> \/ a = << >> THEN << >>
              ELSE LET r == BMul(a, Tail(b))
                   IN  BAdd(Norm(MulDig(a, b[1], 1, 0)),
                            IF r = << >> THEN << >> ELSE << 0 >> \o r)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

\* bit i (from 0) of a
BBit(a, i) == (Dig(a, i \div 12 + 1) \div Pow2(i % 12)) % 2

RECURSIVE DigLen(_)
DigLen(d) == IF d = 0 THEN 0 ELSE 1 + DigLen(d \div 2)
BBitLen(a) == IF a = << >> THEN 0 ELSE 12 * (Len(a) - 1) + DigLen(a[Len(a)])

BTwice(a) == BAdd(a, a)

(***************************************************************************)
(* Long division, digit by digit: q, r with a = q m + r and r < m.  Step   *)
(* divides t < 4096 m by m, subtracting a safe under-estimate of the       *)
(* quotient digit until nothing is left.                                   *)
(***************************************************************************)
RECURSIVE Step(_, _, _)
Step(t, m, q) ==
  IF BLt(t, m) THEN << q, t >>
  ELSE LET n  == Len(m)
           g  == Max(1, (Dig(t, n + 1) * Base + Dig(t, n)) \div (m[n] + 1))
           t1 == BSub(t, Norm(MulDig(m, g, 1, 0)))
       IN  Step(t1, m, q + g)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, m, i, q, r) ==
  IF i = 0 THEN << Norm(q), r >>
  ELSE LET s == Step(Norm(<< a[i] >> \o r), m, 0)
       IN  DivAt(a, m, i - 1, << s[1] >> \o q, s[2])
BDivMod(a, m) == DivAt(a, m, Len(a), << >>, << >>)
BMod(a, m) == BDivMod(a, m)[2]

\* arithmetic on residues below m
BAddMod(a, b, m) == BMod(BAdd(a, b), m)
BSubMod(a, b, m) == BMod(BSub(BAdd(BMod(a, m), m), BMod(b, m)), m)
BNegMod(a, m) == BSubMod(<< >>, a, m)
BMulMod(a, b, m) == BMod(BMul(a, b), m)

RECURSIVE PowAt(_, _, _, _, _)
PowAt(a, e, m, i, r) ==
  IF i < 0 THEN r
  ELSE LET s == BMulMod(r, r, m)
       IN  PowAt(a, e, m, i - 1, IF BBit(e, i) = 1 THEN BMulMod(s, a, m) ELSE s)
BPowMod(a, e, m) == PowAt(a, e, m, BBitLen(e) - 1, BMod(<< 1 >>, m))

\* inverse of a modulo the prime m; 0 for a = 0
BInvMod(a, m) == BPowMod(a, BSub(m, << 2 >>), m)

\* 2^k, a mod 2^k, a div 2^k
RECURSIVE BPow2(_)
BPow2(k) == IF k = 0 THEN << 1 >> ELSE BTwice(BPow2(k - 1))
BLow(a, k) == BMod(a, BPow2(k))
BShr(a, k) == BDivMod(a, BPow2(k))[1]

(***************************************************************************)
(* Hexadecimal strings.  Byte strings travel between the recorder and the  *)
(* specification as lower-case hex.                                        *)
(***************************************************************************)
HexDigits == << "0", "1", "2", "3", "4", "5", "6", "7",
                "8", "9", "a", "b", "c", "d", "e", "f" >>
Nib(c) == (CHOOSE k \in 1..16 : HexDigits[k] = c) - 1

\* hex string -> sequence of bytes
HexToBytes(h) == [k \in 1..(Len(h) \div 2) |->
                    16 * Nib(SubSeq(h, 2*k - 1, 2*k - 1)) + Nib(SubSeq(h, 2*k, 2*k))]

RECURSIVE BytesToHex(_)
BytesToHex(s) == IF s = << >> THEN ""
                 ELSE HexDigits[Head(s) \div 16 + 1] \o HexDigits[(Head(s) % 16) + 1]
                      \o BytesToHex(Tail(s))

\* little-endian byte sequence -> number, and back into n bytes
RECURSIVE BFromBytes(_)
BFromBytes(s) == IF s = << >> THEN << >>
                 ELSE BAdd(BFromInt(Head(s)), BMul(BFromBytes(Tail(s)), << 256 >>))
RECURSIVE BToBytes(_, _)
BToBytes(a, n) == IF n = 0 THEN << >>
                  ELSE << Dig(a, 1) % 256 >> \o BToBytes(BShr(a, 8), n - 1)

\* little-endian hex of n bytes
BFromLE(h) == BFromBytes(HexToBytes(h))
BToLE(a, n) == BytesToHex(BToBytes(a, n))
HexLen(h) == Len(h) \div 2
HexSub(h, from, to) == SubSeq(h, 2 * from + 1, 2 * to)   \* bytes [from, to)
=============================================================================
