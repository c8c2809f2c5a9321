SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  ParamZ <- Z_SNARK
  CurveB = 3
  XiA = 9
  XiB = 1
