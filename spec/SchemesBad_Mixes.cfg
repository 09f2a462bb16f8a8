SPECIFICATION Spec
CONSTANTS
  Val <- MCVal
  Depth = 1
  Bug = "Mixes"
INVARIANTS Reexpanded Involution Reported Shifted Truncated
CHECK_DEADLOCK FALSE
