SPECIFICATION MCSpec
CONSTANTS
  Q = 5
  Plus <- FPlus
  Times <- FTimes
  Minus <- FMinus
  Recip <- FRecip
  Num <- FNum
  Length <- FLength
INVARIANTS Kept Tangents Normals Curl2 Differences
CHECK_DEADLOCK FALSE
