CONSTANTS
  Objs = {1, 2}
  Points = {"p", "q"}
  Plain = {"a", "b"}
  Lowering = {"u"}
  Throwing = {"t"}
  MaxDone = 4
  Gen = FALSE
  RestoreOnThrow = TRUE
  RestoreOnReturn = TRUE
  WriteScratch = FALSE
  CopyDepth = TRUE
SPECIFICATION Spec
INVARIANTS Pure Fresh Restored
CHECK_DEADLOCK FALSE
