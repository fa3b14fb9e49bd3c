SPECIFICATION MCSpec
CONSTANTS
  VAdd2 <- IAdd
  VSub2 <- ISub
  VMul2 <- IMul
  VDiv2 <- IDiv
  VScale2 <- IScale
  Dot <- IDot
  MV <- IMV
  MTV <- IMTV
  Num <- INum
  Rat <- IRat
  NearV <- INear
  Pos <- IPos
  SameV <- ISame
INVARIANTS DerivExact Boundary Undo UndoInv Skew RowSum
CHECK_DEADLOCK FALSE
