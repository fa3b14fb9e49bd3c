SPECIFICATION Spec
CONSTANTS
  D = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
