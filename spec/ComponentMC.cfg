SPECIFICATION MCSpec
CONSTANT P = 17
INVARIANTS Kept Transposed Nothing Added Matters Follows
CHECK_DEADLOCK FALSE
