SPECIFICATION MCSpec
INVARIANTS Keeps Powers Values
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
