SPECIFICATION Spec
CONSTANTS
  D = 2
  MaxComps = 1
  Regimes = {"any", "low", "high", "edge", "zero"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
