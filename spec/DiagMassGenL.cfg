SPECIFICATION Spec
CONSTANTS
  D = 6
  NS = {1, 2, 3, 4, 5}
  Geo = {"unit", "affine", "stretched", "curved", "embedded"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
