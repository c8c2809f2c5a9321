SPECIFICATION Spec
INVARIANTS LastOK Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Build = "snark"
  MaxLen = 3
