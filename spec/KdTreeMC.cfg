SPECIFICATION MCSpec
CONSTANTS
  W = 2
  H = 1
  N = 4
  Dist <- MDist
  Leq <- MLeq
  SameD <- MSameD
INVARIANTS SearchIsNearest EmptyIsError
CHECK_DEADLOCK FALSE
