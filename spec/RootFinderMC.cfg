SPECIFICATION MCSpec
CONSTANTS
  Neg <- MNeg
  NonNeg <- MNonNeg
  NonPos <- MNonPos
  SmallF <- MSmall
  SureF <- MSmall
  NarrowX <- MNarrow
  SureX <- MNarrow
  Mid <- MMid
  SecantPoint <- MSec
  Smaller <- MSmaller
  NaN <- MNaN
  Same <- MSame
INVARIANTS BracketChangesSign Inside Truthful Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
