SPECIFICATION Spec
CONSTANTS
  D = 9
  MaxComps = 2
  Regimes = {"any", "low", "high", "edge", "zero"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
