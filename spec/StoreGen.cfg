CONSTANTS
  Objs = {1, 2, 3}
  Vals = {1, 2}
  Quantities = {"DMh", "DMh2", "ExpUnc", "DLambda", "DLambdaShift", "EFT", "FO", "FOAt", "Hierarchy", "AbsDiff", "RelDiff", "MDRShift", "H3mShift", "MDRMasses", "LambdaH3m", "LambdaEFT", "LambdaNonLog", "XtUnc", "MDRFlag", "Scheme"}
  Orders = {0, 1, 2, 3, 4, 5}
  MaxOps = 60
  Gen = TRUE
SPECIFICATION Spec
INVARIANTS GenDone
CHECK_DEADLOCK FALSE
