SPECIFICATION MCSpec
CONSTANTS
  DSeg = 3
  DTri = 2
  DTet = 1
  Weights <- MCWeights
  PAdd <- MAdd
  PMul <- MMul
  PScale <- MScale
  POne <- MOne
  Root <- NoRoot
  LobattoOk <- NoLob
INVARIANT Orthonormal
CHECK_DEADLOCK FALSE
