SPECIFICATION Spec
CONSTANTS
  Names = {"RRK", "RRKMIDPOINT", "RRK6"}
  Modes = {"script", "flow", "real"}
  Entropies = {"quad", "exp", "quartic", "log", "flat"}
  Sizes = {"tiny", "small", "mid", "big", "huge"}
  D = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
