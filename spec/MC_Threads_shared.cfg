SPECIFICATION Spec
INVARIANTS NoInterference
CHECK_DEADLOCK FALSE
CONSTANTS
  Thread = {1, 2}
  Steps = 8
  Private = FALSE
  Families = 1
