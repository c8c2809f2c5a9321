SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ParamZ <- Z_Pos1
  CurveB = 5
  XiA = 2
  XiB = 1
  Gen1 <- G1Pos1
  Gen2 <- G2Pos1
  Order = 97
INVARIANTS On Mult Law1 Law2 Opp Endo Bilinear NonDegenerate Projective FinalIsPower
