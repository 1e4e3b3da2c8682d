SPECIFICATION Spec
CONSTANTS
  NB = 2
  MaxLen = 2
  MaxOps = 2
INVARIANTS Refines TopOK AuxOK Definitional
CHECK_DEADLOCK FALSE
