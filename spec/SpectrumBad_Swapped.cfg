SPECIFICATION Spec
CONSTANTS
  Points = 2
  Grid = TRUE
  Sectors = {"St", "hh", "Cha"}
  Depth = 0
  Bug = "Swapped"
INVARIANTS SuperTrace Isospin Goldstone HiggsRule Susy Mixing Gaugeless
CHECK_DEADLOCK FALSE
