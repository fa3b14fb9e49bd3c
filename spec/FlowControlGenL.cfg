SPECIFICATION Spec
CONSTANTS
  D = 9
  Kinds = {"control"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
