SPECIFICATION MCSpec
CONSTANTS
  Times <- MTimes
  Plus <- MPlus
  Inner <- MInner
  Dir <- MDir
  One = 1
  Nil = 0
  NullOf <- MNull
  DefaultPar <- MPar
INVARIANTS Fresh Handed Restored Cleared Linear Unmarked
CHECK_DEADLOCK FALSE
