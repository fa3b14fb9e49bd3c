SPECIFICATION Spec
CONSTANTS
  D = 2
  Kinds = {"solver", "linear", "adjoint", "nonlinear", "ode", "look"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
