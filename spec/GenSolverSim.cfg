SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Every = FALSE
CHECK_DEADLOCK FALSE
