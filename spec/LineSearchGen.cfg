SPECIFICATION Spec
CONSTANTS
  Kinds = {"near", "bad", "huge", "inf", "nan"}
  MaxIts = {0, 1, 2, 3, 10}
  D = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
