SPECIFICATION Spec
CONSTANTS
  D = 8
  Kinds = {"solver", "linear", "adjoint", "nonlinear", "ode", "look"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
