SPECIFICATION MCSpec
INVARIANTS Keeps Shape Loads
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
