SPECIFICATION Spec
CONSTANTS
  Vars = {"x", "y"}
  Targets = {"c", "d"}
  Idx = {0, 1}
  Insts <- TwoInsts
  MaxDepth = 3
  Ctxs = {1, 2}
  MaxOps = 30
  Every = FALSE
  ResetOK = TRUE
  MaxNum = 8
CHECK_DEADLOCK FALSE
