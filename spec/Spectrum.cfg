SPECIFICATION Spec
CONSTANTS
  Points = 2
  Grid = FALSE
  Sectors = {"St", "hh", "Cha"}
  Depth = 5
  Bug = "none"
INVARIANTS Consistent Diagonalized SuperTrace Isospin Goldstone HiggsRule Susy Mixing Gaugeless
CHECK_DEADLOCK FALSE
