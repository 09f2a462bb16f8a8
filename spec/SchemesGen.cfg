SPECIFICATION Spec
CONSTANTS
  Val = {1}
  Depth = 24
  Bug = "none"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
