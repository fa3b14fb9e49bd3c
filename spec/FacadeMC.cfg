SPECIFICATION MSpec
PROPERTIES Others Sizes Harmless Values LinPoint
INVARIANTS Affine RDeriv
CHECK_DEADLOCK FALSE
