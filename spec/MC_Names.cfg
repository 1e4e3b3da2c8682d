SPECIFICATION Spec
CONSTANTS
  Alphabet = {1, 2}
  MaxLen = 2
  MaxDepth = 3
INVARIANT Readable
CHECK_DEADLOCK FALSE
