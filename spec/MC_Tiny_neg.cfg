SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ParamZ <- Z_Neg1
  CurveB = 2
  XiA = 1
  XiB = 1
  Gen1 <- G1Neg1
  Gen2 <- G2Neg1
  Order = 13
INVARIANTS On Mult Law1 Law2 Opp Endo Bilinear NonDegenerate FreeScale Projective FinalIsPower
