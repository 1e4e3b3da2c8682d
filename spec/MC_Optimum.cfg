SPECIFICATION Spec
CONSTANTS
  X = {1, 2, 3}
INVARIANTS Descending Calls Right NoAnswer
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
