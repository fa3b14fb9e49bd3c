SPECIFICATION Spec
CONSTANTS
  D = 8
  Dims = {1, 2, 3, 4}
  Patterns = {"grid", "same", "line", "random", "cluster", "sorted", "huge", "mirror"}
  Queries = {"member", "between", "near", "far", "random"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
