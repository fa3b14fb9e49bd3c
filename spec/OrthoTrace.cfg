SPECIFICATION TSpec
CONSTANTS
  PAdd <- VAdd
  PMul <- VMul
  PScale <- TScale
  POne <- TOne
  Root <- TRoot
  LobattoOk <- TLob
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
