SPECIFICATION Spec
CONSTANTS
  Objs = {s1, s2}
  Files = {f1, f2, f3}
  Steps = 2
INVARIANTS Definite1 OwnFormula Apart Clean LastAnswer
PROPERTIES Ends
CHECK_DEADLOCK FALSE
