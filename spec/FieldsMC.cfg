SPECIFICATION MCSpec
INVARIANTS RoundTrip Back Duality
PROPERTY Frame
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
