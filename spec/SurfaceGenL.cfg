SPECIFICATION Spec
CONSTANTS
  D = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
