CONSTANTS
  Objs = {1, 2}
  Vals = {0, 2, 6}
  Quantities = {"DMh2", "ExpUnc", "MDRMasses", "MDRFlag", "Scheme"}
  Orders = {0, 1, 4, 5}
  MaxOps = 3
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS ReadsLastWrite Ascending
PROPERTIES OneSlot
CHECK_DEADLOCK FALSE
