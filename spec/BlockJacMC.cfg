SPECIFICATION MCSpec
INVARIANTS Local Adjoint NoDangling
CHECK_DEADLOCK FALSE
