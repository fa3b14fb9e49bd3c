SPECIFICATION MCSpec
INVARIANTS Derivative Slope Explicit
CHECK_DEADLOCK FALSE
