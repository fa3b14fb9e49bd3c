SPECIFICATION Spec
CONSTANT D = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
