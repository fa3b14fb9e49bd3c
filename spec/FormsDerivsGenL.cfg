SPECIFICATION Spec
CONSTANTS
  D = 9
  Part = "derivs"
INVARIANT Emit
CHECK_DEADLOCK FALSE
