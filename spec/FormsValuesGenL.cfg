SPECIFICATION Spec
CONSTANTS
  D = 9
  Part = "values"
INVARIANT Emit
CHECK_DEADLOCK FALSE
