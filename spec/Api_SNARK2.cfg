SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  ParamZ <- Z_SNARK
  CurveB = 82
  XiA = 9
  XiB = 1
