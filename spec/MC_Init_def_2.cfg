SPECIFICATION Spec
INVARIANTS LastOK Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Build = "def"
  MaxLen = 2
