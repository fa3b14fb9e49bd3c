SPECIFICATION TSpec
CONSTANTS
  Plus <- DAdd
  Times <- DMul
  Minus <- DNeg
  Recip <- RInv
  Num <- DInt
  Twentieth <- RTw
  OpenLoop <- ROpen
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
