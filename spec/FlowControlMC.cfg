SPECIFICATION MCSpec
CONSTANTS
  Q = 7
  Depth = 2
  Plus <- FPlus
  Times <- FTimes
  Minus <- FMinus
  Recip <- FRecip
  Num <- FNum
  Twentieth <- FTw
  OpenLoop <- FOpen
INVARIANTS IsPid IsDet IsGrowth Rotation OpenInv Kept KeptLoop
CHECK_DEADLOCK FALSE
