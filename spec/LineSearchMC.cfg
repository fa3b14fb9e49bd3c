SPECIFICATION MCSpec
CONSTANTS
  Zero = 0
  May <- MCSuff
  Must <- MCSuff
  Safeguarded <- MCSafe
  Interpolated <- MCInterp
INVARIANTS StepIsSound GiveUpIsJustified NeverNaN Bounded Shrinks StopsAtFirst
PROPERTY Terminates
CHECK_DEADLOCK FALSE
