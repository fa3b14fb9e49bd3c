SPECIFICATION MCSpec
CONSTANTS
  Zero = 0
  One = 1
  Add <- MAdd
  BaseStep <- MBase
  MayExit <- MExit
  MustExit <- MExit
  Advance <- MAdv
  Same <- MSame
  SameV <- MSame
INVARIANTS RecordsTrue Selected Increasing NotPast Counted Reached
PROPERTY Ends
CHECK_DEADLOCK FALSE
