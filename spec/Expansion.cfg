SPECIFICATION Spec
INVARIANTS SameFunction Converges Siblings
CONSTANTS
  Deg = 3
  Order = 2
  Coeffs <- Cs
  Dist <- Ds
  Halvings = 3
  Fault = "none"
CHECK_DEADLOCK FALSE
