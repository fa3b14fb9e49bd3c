SPECIFICATION MCSpec
CONSTANT Dec <- IDec
INVARIANTS Given Kept Nothing NoNulls
CHECK_DEADLOCK FALSE
