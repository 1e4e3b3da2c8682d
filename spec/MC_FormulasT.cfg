SPECIFICATION Spec
CONSTANTS
  NB = 2
  MaxLen = 1
  MaxOps = 3
INVARIANTS Refines TopOK AuxOK Definitional
CHECK_DEADLOCK FALSE
