SPECIFICATION Spec
CONSTANTS
  D = 9
  Shapes = {"plain", "override", "nested", "null", "new", "samename", "two", "mixture", "base", "none", "clash"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
