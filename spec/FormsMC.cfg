SPECIFICATION MCSpec
INVARIANTS Keeps Commutes Values Slopes
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
