SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
  Every = FALSE
  Full = TRUE
CHECK_DEADLOCK FALSE
