SPECIFICATION Spec
CONSTANTS
  D = 2
  Family = "jf"
INVARIANT Emit
CHECK_DEADLOCK FALSE
