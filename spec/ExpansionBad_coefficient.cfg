SPECIFICATION Spec
INVARIANTS Siblings
CONSTANTS
  Deg = 3
  Order = 2
  Coeffs <- Cs
  Dist <- Ds
  Halvings = 3
  Fault = "coefficient"
CHECK_DEADLOCK FALSE
