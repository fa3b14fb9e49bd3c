SPECIFICATION Spec
CONSTANTS D = 16 Masks = {0, 1, 2, 3, 4, 5, 6} Calls = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
