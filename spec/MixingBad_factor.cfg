SPECIFICATION Spec
INVARIANTS DependsOnMixing AlongVacuum
CONSTANTS
  Vacua <- Vs
  Mus <- Ms
  As <- Bs
  Powers = {0, 1, 2, 4}
  Coeffs <- Qs
  MaxTerms = 2
  Steps = 2
  Fault = "factor"
CHECK_DEADLOCK FALSE
