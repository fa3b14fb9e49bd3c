SPECIFICATION Spec
CONSTANTS
  Kinds = {"pos", "neg", "zero", "tol", "microp", "micron", "hugep", "hugen", "nan"}
  MaxIts = {0, 1, 2, 60}
  D = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
