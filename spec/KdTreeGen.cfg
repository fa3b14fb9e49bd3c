SPECIFICATION Spec
CONSTANTS
  D = 3
  Dims = {1, 2, 3}
  Patterns = {"grid", "same"}
  Queries = {"any"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
