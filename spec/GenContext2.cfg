SPECIFICATION Spec
CONSTANTS
  Vars = {"x"}
  Targets = {"c"}
  Idx = {0, 1}
  Insts <- OneInst
  MaxDepth = 2
  Ctxs = {1, 2}
  MaxOps = 5
  Every = TRUE
  ResetOK = TRUE
  MaxNum = 2
VIEW View
CHECK_DEADLOCK FALSE
