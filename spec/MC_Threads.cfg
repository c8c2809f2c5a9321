SPECIFICATION Spec
INVARIANTS NoInterference Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Thread = {1, 2}
  Steps = 8
  Private = TRUE
  Families = 16
