SPECIFICATION Spec
CONSTANTS
  D = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
