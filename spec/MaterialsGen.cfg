SPECIFICATION Spec
CONSTANTS
  D = 3
  Shapes = {"plain", "override", "nested", "null", "new", "samename", "two", "mixture", "base", "none", "clash"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
