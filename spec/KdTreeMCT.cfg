SPECIFICATION MCSpec
CONSTANTS
  W = 1
  H = 1
  N = 5
  Dist <- MDist
  Leq <- MLeq
  SameD <- MSameD
INVARIANTS SearchIsNearest EmptyIsError
CHECK_DEADLOCK FALSE
