SPECIFICATION TSpec
CONSTANTS
  Plus <- DAdd
  Times <- DMul
  Minus <- DNeg
  Recip <- RInv
  Num <- DInt
  Keep <- Eager
  VPlus <- VAdd
  VTimes <- VScale
  Dot <- VDot
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
