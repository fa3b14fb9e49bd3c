SPECIFICATION Spec
CONSTANTS
  D = 1
  DTri = 5
  DTet = 3
  NLob = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
