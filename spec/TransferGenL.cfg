SPECIFICATION Spec
CONSTANT
  D = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
