SPECIFICATION Spec
CONSTANTS
  D = 2
  Family = "sum"
INVARIANT Emit
CHECK_DEADLOCK FALSE
