SPECIFICATION Spec
CONSTANTS
  MaxTok = 9
  Write = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Lawful
