SPECIFICATION TSpec
CONSTANTS
  Times <- VScale
  Plus <- VAdd
  Inner <- VDot
  Dir <- TDir
  One = "3ff0000000000000"
  Nil = "0000000000000000"
  NullOf <- TNull
  DefaultPar <- TPar
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
