SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Calls = 2
  Names = {1, 2, 3}
INVARIANTS AsAlone Apart Clean
PROPERTIES AllEnd
VIEW View
CHECK_DEADLOCK FALSE
