SPECIFICATION Spec
CONSTANTS
  D = 7
  Family = "jf"
INVARIANT Emit
CHECK_DEADLOCK FALSE
