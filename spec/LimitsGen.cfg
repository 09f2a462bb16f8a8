SPECIFICATION Spec
CONSTANTS
  Pos = {0, 1, 9}
  W = 4
  N = 0
  Bug = "none"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
