SPECIFICATION Spec
CONSTANT D = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
