SPECIFICATION Spec
CONSTANTS
  Vars = {"x", "y"}
  Targets = {"c", "d"}
  Idx = {0, 1}
  Insts <- OneInst
  MaxDepth = 3
  Ctxs = {1}
  MaxOps = 6
  Every = TRUE
  ResetOK = TRUE
  MaxNum = 3
VIEW View
CHECK_DEADLOCK FALSE
