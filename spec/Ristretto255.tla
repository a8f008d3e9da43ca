---------------------------- MODULE Ristretto255 ----------------------------
(***************************************************************************)
(* The parameters of ristretto255, to be substituted for the constants of  *)
(* Ristretto in a configuration file, and known answers (RFC 9496,         *)
(* appendix A) that pin the specification to the standard.                 *)
(***************************************************************************)
EXTENDS BigNum

Full_P == BSub(BPow2(255), << 19 >>)
Full_L == BAdd(BPow2(252), BFromLE("edd3f55c1a631258d69cf7a2def9de14"))
\* d = -121665/121666
Full_D == BMulMod(BNegMod(BFromInt(121665), Full_P), BInvMod(BFromInt(121666), Full_P), Full_P)
\* i = 2^((p-1)/4), the even of the two roots
Full_I == LET c == BPowMod(<< 2 >>, BShr(BSub(Full_P, << 1 >>), 2), Full_P)
          IN  IF BBit(c, 0) = 1 THEN BNegMod(c, Full_P) ELSE c
\* the base point has y = 4/5 and even x
Full_Base ==
  << BFromLE("1ad5258f602d56c9b2a7259560c72c695cdcd6fd31e2a4c0fe536ecdd3366921"),
     BMulMod(<< 4 >>, BInvMod(<< 5 >>, Full_P), Full_P) >>
\* the odd square root of -d-1 (SQRT_AD_MINUS_ONE of the RFC)
Full_SqrtADm1 ==
  LET a == BSubMod(BNegMod(Full_D, Full_P), << 1 >>, Full_P)
      c == BPowMod(a, BShr(BAdd(Full_P, << 3 >>), 3), Full_P)
      r == IF BMulMod(c, c, Full_P) = a THEN c ELSE BMulMod(Full_I, c, Full_P)
  IN  IF BBit(r, 0) = 1 THEN r ELSE BNegMod(r, Full_P)
Full_NB == 32
=============================================================================
