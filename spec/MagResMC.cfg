SPECIFICATION MCSpec
INVARIANTS Shape Derivs
CHECK_DEADLOCK FALSE
