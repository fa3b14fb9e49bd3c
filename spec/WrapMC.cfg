SPECIFICATION MCSpec
INVARIANT Held
PROPERTY Counts
CHECK_DEADLOCK FALSE
