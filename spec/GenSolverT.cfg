SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Every = FALSE
CHECK_DEADLOCK FALSE
