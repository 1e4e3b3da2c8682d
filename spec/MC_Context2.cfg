SPECIFICATION Spec
CONSTANTS
  Vars = {"x"}
  Targets = {"c"}
  Idx = {0, 1}
  MaxDepth = 2
  MaxTop = 3
  Ctxs = {1, 2}
  MaxOps = 6
INVARIANTS Inv Nested Innermost
PROPERTIES Isolated Stable Positioned
CHECK_DEADLOCK FALSE
