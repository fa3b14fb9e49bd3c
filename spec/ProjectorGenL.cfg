SPECIFICATION Spec
CONSTANTS
  D = 9
  Meshes = {"tri", "quad", "tet", "hex", "tri2", "quad2", "curved", "thin"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
