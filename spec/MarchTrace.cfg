SPECIFICATION TSpec
CONSTANTS
  Zero <- E0
  One <- E1
  Add <- TAdd
  BaseStep <- TBase
  MayExit <- TMay
  MustExit <- TMust
  Advance <- TAdv
  Same <- TSame
  SameV <- TSameV
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
