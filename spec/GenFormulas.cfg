SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Every = FALSE
  Full = FALSE
CHECK_DEADLOCK FALSE
