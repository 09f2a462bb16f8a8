CONSTANTS
  Objs = {1, 2, 3}
  Points = {"0","1","2","3"}
  Plain = {"a0","a1","a2","a3","a4","a5","a6","a7","a8","a9","b0","b1","b2","b3","b4","b5"}
  Lowering = {"u0","u1","u2"}
  Throwing = {"t0","t1","t2"}
  MaxDone = 24
  Gen = TRUE
  RestoreOnThrow = TRUE
  RestoreOnReturn = TRUE
  WriteScratch = TRUE
  CopyDepth = TRUE
SPECIFICATION Spec
INVARIANTS Restored GenDone
CHECK_DEADLOCK FALSE
