SPECIFICATION Spec
CONSTANTS D = 3 Calm = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
