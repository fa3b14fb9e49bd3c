SPECIFICATION Spec
CONSTANTS
  Names = {"RK1", "RK4", "MIDPOINT", "PTC", "steady", "RRK", "RRKMIDPOINT", "RRK6"}
  Modes = {"script", "flow", "real"}
  Entropies = {"quad", "exp"}
  Sizes = {"small", "mid", "big"}
  D = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
