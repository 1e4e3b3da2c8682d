SPECIFICATION Spec
CONSTANTS
  X = {1, 2, 3, 4}
INVARIANTS Descending Calls Right NoAnswer
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
