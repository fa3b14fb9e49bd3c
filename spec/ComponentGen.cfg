SPECIFICATION Spec
CONSTANT D = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
