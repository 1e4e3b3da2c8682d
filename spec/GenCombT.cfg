SPECIFICATION Spec
CONSTANTS
  MaxTok = 9
  Write = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Lawful
