SPECIFICATION TSpec
CONSTANTS
  Dist <- TDist
  Leq <- TLeq
  SameD <- TSameD
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
