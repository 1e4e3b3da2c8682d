SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  NCtx = 2
  NSol = 2
  Every = TRUE
CHECK_DEADLOCK FALSE
