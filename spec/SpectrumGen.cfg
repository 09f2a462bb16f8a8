SPECIFICATION Spec
CONSTANTS
  Points = 3
  Grid = FALSE
  Sectors = {"VZ", "VWm", "Ft", "Fb", "Ftau", "SveL", "SvmL", "SvtL", "Su", "Sd", "Sc", "Ss", "St", "Sb", "Se", "Sm", "Stau", "hh", "Ah", "Hpm", "Chi", "Cha"}
  Depth = 40
  Bug = "none"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
