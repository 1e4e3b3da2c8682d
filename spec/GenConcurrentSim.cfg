SPECIFICATION GenSpec
CONSTANTS
  Procs = {1, 2, 3}
  Calls = 4
  Names = {1, 2, 3}
ACTION_CONSTRAINTS Ordered
CHECK_DEADLOCK FALSE
