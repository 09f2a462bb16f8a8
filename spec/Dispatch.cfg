SPECIFICATION Spec
CONSTANTS
  Thr = 2
  EpsM = 3
  HasLimit = TRUE
  Variant = "Good"
INVARIANTS NoPole KeepsMixing Close LimitIsNear LabelIndependent Untouched
CHECK_DEADLOCK FALSE
