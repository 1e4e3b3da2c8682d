SPECIFICATION Spec
CONSTANTS
  MaxTok = 11
  Write = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Lawful
