SPECIFICATION Spec
CONSTANTS
  D = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
