------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* The operators of BigNumPure, with TLC's Java override BigNum.java in    *)
(* their place at run time (MCBigNum checks that the two agree).           *)
(* Sha256 and Sha512 have no definition here: the hash functions are the   *)
(* Go standard library's, trusted, and given by java.security.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Pure == INSTANCE BigNumPure

BFromInt(n) == Pure!BFromInt(n)
BToInt(a) == Pure!BToInt(a)
BCmp(a, b) == Pure!BCmp(a, b)
BLt(a, b) == Pure!BLt(a, b)
BLeq(a, b) == Pure!BLeq(a, b)
BAdd(a, b) == Pure!BAdd(a, b)
BSub(a, b) == Pure!BSub(a, b)
BMul(a, b) == Pure!BMul(a, b)
BBit(a, i) == Pure!BBit(a, i)
BBitLen(a) == Pure!BBitLen(a)
BMod(a, m) == Pure!BMod(a, m)
BAddMod(a, b, m) == Pure!BAddMod(a, b, m)
BSubMod(a, b, m) == Pure!BSubMod(a, b, m)
BNegMod(a, m) == Pure!BNegMod(a, m)
BMulMod(a, b, m) == Pure!BMulMod(a, b, m)
BPowMod(a, e, m) == Pure!BPowMod(a, e, m)
BInvMod(a, m) == Pure!BInvMod(a, m)
BPow2(k) == Pure!BPow2(k)
BLow(a, k) == Pure!BLow(a, k)
BShr(a, k) == Pure!BShr(a, k)
HexToBytes(h) == Pure!HexToBytes(h)
BytesToHex(s) == Pure!BytesToHex(s)
BFromBytes(s) == Pure!BFromBytes(s)
BToBytes(a, n) == Pure!BToBytes(a, n)
BFromLE(h) == Pure!BFromLE(h)
BToLE(a, n) == Pure!BToLE(a, n)
HexLen(h) == Pure!HexLen(h)
HexSub(h, from, to) == Pure!HexSub(h, from, to)

\* hash of the byte string h, both in hex
Sha256(h) == CHOOSE x \in STRING : TRUE
Sha512(h) == CHOOSE x \in STRING : TRUE
=============================================================================
