SPECIFICATION TSpec
CONSTANTS
  Formats = {}
  Fields = {}
  Steps = {}
  Ranks = {}
  Values = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
