SPECIFICATION Spec
CONSTANTS
  Vars = {"x", "y", "z"}
  Targets = {"c", "d"}
  Idx = {0, 1}
  Insts <- TwoInsts
  MaxDepth = 4
  Ctxs = {1}
  MaxOps = 30
  Every = FALSE
  ResetOK = TRUE
  MaxNum = 12
CHECK_DEADLOCK FALSE
