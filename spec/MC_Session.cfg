SPECIFICATION Spec
CONSTANTS
  Ctxs = {1, 2}
  Solvers = {1, 2}
  Names = {"x", "y"}
  MaxEpoch = 1
INVARIANTS ReadRight Apart
CHECK_DEADLOCK FALSE
