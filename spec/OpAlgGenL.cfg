SPECIFICATION Spec
CONSTANTS
  D = 6
  Family = "sum"
INVARIANT Emit
CHECK_DEADLOCK FALSE
