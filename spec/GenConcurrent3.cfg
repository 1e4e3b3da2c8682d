SPECIFICATION GenSpec
CONSTANTS
  Procs = {1, 2, 3}
  Calls = 1
  Names = {1, 2, 3}
ACTION_CONSTRAINTS Ordered
CHECK_DEADLOCK FALSE
