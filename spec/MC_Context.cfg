SPECIFICATION Spec
CONSTANTS
  Vars = {"x", "y"}
  Targets = {"c", "d"}
  Idx = {0, 1}
  MaxDepth = 2
  MaxTop = 4
  Ctxs = {1}
  MaxOps = 7
INVARIANTS Inv Nested Innermost
PROPERTIES Isolated Stable Positioned
CHECK_DEADLOCK FALSE
