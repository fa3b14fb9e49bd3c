SPECIFICATION GSpec
CONSTANTS
  D = 3
  Formats = {"A"}
  Fields = {"u", "u_1"}
  Steps = {1}
  Ranks = {0, 1}
  Values = {"a", "b"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
