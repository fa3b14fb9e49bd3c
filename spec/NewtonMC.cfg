SPECIFICATION MCSpec
CONSTANTS
  Zero = 0
  May <- MSuff
  Must <- MSuff
  Safeguarded <- MSafe
  Interpolated <- MInterp
  Norm <- MNorm
  Rhs <- MRhs
  At <- MAt
  StepOf <- MStepOf
  SameState <- MSame
  SameNorm <- MSame
  GoalOf <- MGoal
  MayStop <- MStop
  MustStop <- MStop
  Slope <- MSlope
  Finite <- MFin
INVARIANTS Truthful NotFalseFailure Monotone Counted Limited NormIsOfState
PROPERTY Ends
CHECK_DEADLOCK FALSE
