SPECIFICATION MCSpec
CONSTANTS
  N = 4
  Max = 3
  Far = 2
INVARIANTS FreeStream Conservation EntropyKeptInv EntropyFallsInv ProductionInv
CHECK_DEADLOCK FALSE
