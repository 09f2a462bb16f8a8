SPECIFICATION Spec
CONSTANTS
  Val <- MCVal
  Depth = 1
  Bug = "Four"
INVARIANTS Reexpanded Involution Reported Shifted Truncated
CHECK_DEADLOCK FALSE
