SPECIFICATION Spec
CONSTANTS D = 2 Masks = {0, 1, 2, 3, 4, 5, 6} Calls = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
