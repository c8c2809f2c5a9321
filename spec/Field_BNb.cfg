SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  ParamZ <- Z_BNb
  CurveB = 2
  XiA = 1
  XiB = 1
