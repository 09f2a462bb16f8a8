SPECIFICATION Spec
CONSTANTS
  Val <- MCVal
  Depth = 1
  Bug = "DropsFour"
INVARIANTS Reexpanded Involution Reported Shifted Truncated
CHECK_DEADLOCK FALSE
