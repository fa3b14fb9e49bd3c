SPECIFICATION TSpec
CONSTANTS
  Plus <- DAdd
  Times <- DMul
  Minus <- DNeg
  Recip <- RInv
  Num <- DInt
  Length <- VNorm
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
