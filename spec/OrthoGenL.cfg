SPECIFICATION Spec
CONSTANTS
  D = 8
  DTri = 6
  DTet = 4
  NLob = 64
INVARIANT Emit
CHECK_DEADLOCK FALSE
