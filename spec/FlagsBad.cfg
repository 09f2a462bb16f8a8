CONSTANTS
  Orders = {13, 14, 15, 16, 18, 19, 21, 22}
  MaxOps = 2
  Gen = FALSE
  Design = "bad"
SPECIFICATION Spec
INVARIANTS Additive
CHECK_DEADLOCK FALSE
