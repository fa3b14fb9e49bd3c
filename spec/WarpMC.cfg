SPECIFICATION MCSpec
CONSTANTS
  Q = 5
  Plus <- FPlus
  Times <- FTimes
  Minus <- FMinus
  Recip <- FRecip
  Num <- FNum
  Keep <- Eager
  VPlus <- FVPlus
  VTimes <- FVTimes
  Dot <- D
INVARIANTS Kept Linear Symmetric Rigid Transposed Unique
CHECK_DEADLOCK FALSE
