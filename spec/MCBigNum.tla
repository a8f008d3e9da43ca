------------------------------ MODULE MCBigNum ------------------------------
(***************************************************************************)
(* Self-check of the arithmetic that everything else stands on: the Java   *)
(* override of BigNum against the definitions of BigNumPure.  A state is a *)
(* pair of operands; a pseudo-random walk and all pairs of edge values.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, BigNum
CONSTANTS Steps, Walks
VARIABLES a, b, k

Q == INSTANCE BigNumPure

P25519 == BSub(BPow2(255), << 19 >>)
LOrder == BAdd(BPow2(252), BFromLE("edd3f55c1a631258d69cf7a2def9de14"))
Edges == { << >>, << 1 >>, << 4095 >>, << 0, 1 >>, P25519, BSub(LOrder, << 1 >>),
           BSub(BPow2(256), << 1 >>) }

Init == \/ a \in Edges /\ b \in Edges /\ k = Steps
        \/ /\ k = 0
           /\ \E w \in 1..Walks : a = BFromInt(w * 7919) /\ b = BFromInt(w * 104729)
Next == /\ k < Steps
        /\ a' = BAdd(BMul(a, b), << 1717, 3 >>)
        /\ b' = IF BBitLen(b) > 260 THEN BShr(b, 101) ELSE BAdd(BMul(b, b), a)
        /\ k' = k + 1
Spec == Init /\ [][Next]_<< a, b, k >>

Bounded == BBitLen(a) <= 900

Mods == { P25519, LOrder, << 13 >>, << 101 >> }
Agree ==
  /\ BCmp(a, b) = Q!BCmp(a, b) /\ BLt(a, b) = Q!BLt(a, b) /\ BLeq(a, b) = Q!BLeq(a, b)
  /\ BAdd(a, b) = Q!BAdd(a, b) /\ BMul(a, b) = Q!BMul(a, b)
  /\ BLeq(b, a) => BSub(a, b) = Q!BSub(a, b)
  /\ BBitLen(a) = Q!BBitLen(a) /\ BBit(a, 77) = Q!BBit(a, 77) /\ BBit(a, 0) = Q!BBit(a, 0)
  /\ BLow(a, 255) = Q!BLow(a, 255) /\ BShr(a, 13) = Q!BShr(a, 13)
  /\ BToLE(BLow(a, 256), 32) = Q!BToLE(Q!BLow(a, 256), 32)
  /\ BFromLE(BToLE(BLow(a, 256), 32)) = Q!BLow(a, 256)
  /\ Q!BFromLE(BToLE(BLow(a, 256), 32)) = Q!BLow(a, 256)
  /\ \A m \in Mods :
       /\ BMod(a, m) = Q!BMod(a, m)
       /\ BAddMod(a, b, m) = Q!BAddMod(a, b, m)
       /\ BSubMod(a, b, m) = Q!BSubMod(a, b, m)
       /\ BNegMod(a, m) = Q!BNegMod(a, m)
       /\ BMulMod(a, b, m) = Q!BMulMod(a, b, m)
PowAgree ==
  /\ \A m \in { P25519, LOrder } :
       /\ BPowMod(BMod(a, m), << 4091 >>, m) = Q!BPowMod(BMod(a, m), << 4091 >>, m)
       /\ LET x == BMod(a, m) IN Q!BMulMod(BInvMod(x, m), x, m) = IF x = << >> THEN << >> ELSE << 1 >>
  /\ LET x == BMod(a, << 101 >>) IN BInvMod(x, << 101 >>) = Q!BInvMod(x, << 101 >>)
Good == Bounded => Agree /\ (k = 1 => PowAgree)

ASSUME Sha512("616263") = "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"
ASSUME Sha256("616263") = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
=============================================================================
