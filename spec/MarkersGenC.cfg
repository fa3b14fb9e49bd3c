SPECIFICATION Spec
CONSTANTS D = 9 Calm = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
