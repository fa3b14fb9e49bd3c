SPECIFICATION Spec
CONSTANTS
  D = 3
  Types = {"RK1", "MIDPOINT", "PTC", "steady", "newton", "adjoint"}
  MaxIts = {0, 1, 2, 9, 40}
  Ratios = {"divides", "remainder", "tiny", "beyond", "long", "tenth"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
