SPECIFICATION TSpec
CONSTANTS
  Default <- TDefault
  Const <- TConst
  Params <- TParams
  ParamDefault <- TParamDefault
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
