SPECIFICATION Spec
CONSTANTS
  D = 2
  Kinds = {"control", "flow"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
