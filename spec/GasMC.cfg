SPECIFICATION Spec
INVARIANTS RoundTrip Gradient Convex Two Visc
CHECK_DEADLOCK FALSE
