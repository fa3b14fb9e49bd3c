SPECIFICATION Spec
CONSTANT D = 11
INVARIANT Emit
CHECK_DEADLOCK FALSE
