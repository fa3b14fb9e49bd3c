SPECIFICATION Spec
CONSTANTS
  D = 3
  Part = "values"
INVARIANT Emit
CHECK_DEADLOCK FALSE
