SPECIFICATION MCSpec
INVARIANTS Linear Blocks
CHECK_DEADLOCK FALSE
