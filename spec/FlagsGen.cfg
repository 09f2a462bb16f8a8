CONSTANTS
  Orders = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}
  MaxOps = 50
  Gen = TRUE
  Design = "good"
SPECIFICATION Spec
INVARIANTS GenDone
CHECK_DEADLOCK FALSE
