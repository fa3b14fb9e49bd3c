SPECIFICATION Spec
CONSTANT D = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
