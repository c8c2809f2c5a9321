SPECIFICATION Spec
INVARIANT SameState
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
