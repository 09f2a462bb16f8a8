SPECIFICATION Spec
CONSTANTS
  Points = 2
  Grid = FALSE
  Sectors = {"St", "hh", "Cha"}
  Depth = 5
  Bug = "Order"
INVARIANTS Consistent Diagonalized SuperTrace Isospin Goldstone HiggsRule Susy Mixing Gaugeless
CHECK_DEADLOCK FALSE
