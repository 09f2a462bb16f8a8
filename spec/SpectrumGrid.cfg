SPECIFICATION Spec
CONSTANTS
  Points = 2
  Grid = TRUE
  Sectors = {"St", "hh", "Cha"}
  Depth = 0
  Bug = "none"
INVARIANTS SuperTrace Isospin Goldstone HiggsRule Susy Mixing Gaugeless
CHECK_DEADLOCK FALSE
