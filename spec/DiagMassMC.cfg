SPECIFICATION MCSpec
CONSTANTS
  Mul <- IMul
  Add <- IAdd
  Sub <- ISub
  Div <- IDiv
  Sqrt <- Exact
  Root <- IRoot
  Zero = 0
  Positive <- IPos
  RefVolume <- RV
  Near <- INear
INVARIANT Conserved
CHECK_DEADLOCK FALSE
