SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Range = 60
INVARIANTS Agrees Laws
