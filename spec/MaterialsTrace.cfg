SPECIFICATION TSpec
CONSTANTS
  Mixed <- TMixed
  Near <- TNear
  Zero <- TZero
  Half <- THalf
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
