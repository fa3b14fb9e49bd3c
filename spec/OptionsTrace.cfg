SPECIFICATION TSpec
CONSTANT Dec <- TDec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
