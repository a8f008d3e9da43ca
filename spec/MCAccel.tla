------------------------------- MODULE MCAccel -------------------------------
(* Self-check of Accel.java: every multiple on a toy curve, and full-size   *)
(* multiples of ristretto255's base point, against the affine definition.   *)
EXTENDS Accel, Ristretto255, Integers, Sequences
VARIABLE k
Fld == { BFromInt(n) : n \in 0..100 }
Toy == { q \in Fld \X Fld : BSubMod(BMul(q[2], q[2]), BMul(q[1], q[1]), << 101 >>)
         = BMod(BAdd(<< 1 >>, BMul(<< 29 >>, BMul(BMul(q[1], q[1]), BMul(q[2], q[2])))), << 101 >>) }
Init == k \in 0..40
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Big == BMod(BMul(BPow2(7 * k + 3), BAdd(BPow2(251), BFromInt(k * 7919 + 1))), Full_L)
Good == /\ \A q \in Toy : AffMul(BFromInt(3 * k + 1), q, << 101 >>, << 29 >>) = AffMulDef(BFromInt(3 * k + 1), q, << 101 >>, << 29 >>)
        /\ AffMul(Big, Full_Base, Full_P, Full_D) = AffMulDef(Big, Full_Base, Full_P, Full_D)
=============================================================================
