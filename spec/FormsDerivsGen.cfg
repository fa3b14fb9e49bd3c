SPECIFICATION Spec
CONSTANTS
  D = 3
  Part = "derivs"
INVARIANT Emit
CHECK_DEADLOCK FALSE
