SPECIFICATION Spec
CONSTANTS
  Kinds = {"good", "tiny", "near", "just", "bad", "huge", "inf", "nan"}
  MaxIts = {0, 1, 3, 20}
  LsIts = {0, 1, 4, 10}
  Tails = {"good", "bad", "near"}
  D = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
