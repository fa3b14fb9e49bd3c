SPECIFICATION TSpec
CONSTANTS
  Mul <- DMul
  Add <- DAdd
  Sub <- DSub
  Div <- DDiv
  Sqrt <- DSqrt
  Root <- TRoot
  Zero <- TZero
  Positive <- TPos
  RefVolume <- TRV
  Near <- TNear
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
