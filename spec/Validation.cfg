CONSTANTS
  Sectors = {"t", "b", "tau"}
  Kinds = {"none", "nonet", "alld", "mth", "ms2d", "m", "mt", "th"}
  Healthy = FALSE
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS RejectedIffDefect Completed Respected
PROPERTIES Idempotent StaysOk
CHECK_DEADLOCK FALSE
