SPECIFICATION Spec
CONSTANTS
  D = 2
  Ops = {"buffer", "norm", "normalias", "norminv", "weak", "weakT", "proj", "projT", "weaknode", "strongnode", "entries", "skewrev", "shape-node", "shape-off", "dshape", "dshape-off", "index", "strongmat", "weakmat", "row", "projmat", "coords"}
  Meshes = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
