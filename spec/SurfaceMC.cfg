SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS LowerBound Attained Turned Cut Lipschitz
CHECK_DEADLOCK FALSE
