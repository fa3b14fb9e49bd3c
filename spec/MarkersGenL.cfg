SPECIFICATION Spec
CONSTANTS D = 11 Calm = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
