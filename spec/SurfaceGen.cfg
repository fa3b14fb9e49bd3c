SPECIFICATION Spec
CONSTANTS
  D = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
