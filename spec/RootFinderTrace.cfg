SPECIFICATION TSpec
CONSTANTS
  Neg <- TNeg
  NonNeg <- TNonNeg
  NonPos <- TNonPos
  SmallF <- TSmallF
  SureF <- TSmallF
  NarrowX <- TNarrow
  SureX <- TSureX
  Mid <- TMid
  SecantPoint <- TSec
  Smaller <- TSmaller
  NaN <- TNaN
  Same <- TSame
INVARIANT BracketSound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
