SPECIFICATION GSpec
CONSTANTS
  D = 14
  Formats = {"A", "B"}
  Fields = {"u", "u_1", "state"}
  Steps = {0, 1, 12}
  Ranks = {0, 1}
  Values = {"a", "b", "c"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
