SPECIFICATION Spec
INVARIANT Conforms
CONSTANTS
  P <- Full_P
  SqrtM1 <- Full_I
  D <- Full_D
  L <- Full_L
  BasePoint <- Full_Base
  SqrtADm1 <- Full_SqrtADm1
  NB <- Full_NB
