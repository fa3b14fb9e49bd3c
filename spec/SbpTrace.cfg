SPECIFICATION TSpec
CONSTANTS
  VAdd2 <- VAdd
  VSub2 <- VSub
  VMul2 <- VMul
  VDiv2 <- VDiv
  VScale2 <- VScale
  Dot <- VDot
  MV <- MatVec
  MTV <- MatTVec
  Num <- DInt
  Rat <- DRat
  NearV <- TNear
  Pos <- TPos
  SameV <- VSame
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
