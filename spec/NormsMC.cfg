SPECIFICATION Spec
CONSTANTS
  Max = 2
INVARIANTS ZeroIff Scales Triangle Component Bound Ranks
CHECK_DEADLOCK FALSE
