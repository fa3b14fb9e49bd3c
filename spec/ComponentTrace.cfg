SPECIFICATION TSpec
CONSTANT P = 17
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
