SPECIFICATION MCSpec
CONSTANTS
  Close <- IClose
  Mul <- IMul
  TMul <- ITMul
  Add <- IAdd
  Sub <- ISub
  ZeroV <- IZero
INVARIANTS FreshNow Parts Dual
CHECK_DEADLOCK FALSE
