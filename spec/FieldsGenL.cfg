SPECIFICATION Spec
CONSTANTS
  D = 20
INVARIANT Emit
CHECK_DEADLOCK FALSE
