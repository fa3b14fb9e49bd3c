SPECIFICATION TSpec
CONSTANTS
  Close <- TClose
  Mul <- MatVec
  TMul <- MatTVec
  Add <- VAdd
  Sub <- VSub
  ZeroV <- TZeroV
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
