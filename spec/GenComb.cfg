SPECIFICATION Spec
CONSTANTS
  MaxTok = 7
  Write = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Lawful
