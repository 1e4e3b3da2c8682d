SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
  NCtx = 2
  NSol = 2
  Every = FALSE
CHECK_DEADLOCK FALSE
