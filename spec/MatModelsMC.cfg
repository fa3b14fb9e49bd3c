SPECIFICATION MCSpec
CONSTANTS
  Default <- MDefault
  Const <- MConst
  Params <- MParams
  ParamDefault <- MParamDefault
INVARIANTS Right Same Refused
PROPERTY Built
CHECK_DEADLOCK FALSE
