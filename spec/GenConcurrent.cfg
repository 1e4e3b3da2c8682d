SPECIFICATION GenSpec
CONSTANTS
  Procs = {1, 2}
  Calls = 2
  Names = {1, 2, 3}
ACTION_CONSTRAINTS Ordered
CHECK_DEADLOCK FALSE
