SPECIFICATION MCSpec
INVARIANTS Partition EssIsBoundary
CHECK_DEADLOCK FALSE
