SPECIFICATION Spec
CONSTANTS
  D = 7
  Kinds = {"flow"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
