SPECIFICATION TSpec
CONSTANTS
  Zero = "0000000000000000"
  May <- TSuff
  Must <- TSuff
  Safeguarded <- TSafe
  Interpolated <- TInterp
INVARIANT TStepSound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
