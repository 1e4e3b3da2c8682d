SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Every = FALSE
CHECK_DEADLOCK FALSE
