SPECIFICATION Spec
CONSTANTS
  D = 4
  Meshes = {"tri", "quad", "tet", "hex", "tri2", "quad2", "curved", "thin"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
