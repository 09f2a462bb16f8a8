SPECIFICATION Spec
CONSTANTS
  Pos = {0, 1, 2, 3, 4, 5, 6, 9}
  W = 4
  N = 1
  Bug = "QueryTranslates"
INVARIANTS NoPole Accurate NoMemory Swap
CHECK_DEADLOCK FALSE
