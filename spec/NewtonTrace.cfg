SPECIFICATION TSpec
CONSTANTS
  Zero = "0000000000000000"
  May <- TMay
  Must <- TMust
  Safeguarded <- NSafe
  Interpolated <- NInterp
  Norm <- TNorm
  Rhs <- TRhs
  At <- TAt
  StepOf <- TStepOf
  SameState <- TSame
  SameNorm <- TSameNorm
  GoalOf <- TGoal
  MayStop <- TMayStop
  MustStop <- TMustStop
  Slope <- TSlope
  Finite <- TFin
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
