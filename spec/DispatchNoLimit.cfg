SPECIFICATION Spec
CONSTANTS
  Thr = 2
  EpsM = 3
  HasLimit = FALSE
  Variant = "Good"
INVARIANTS NoPole KeepsMixing Close LimitIsNear LabelIndependent Untouched
CHECK_DEADLOCK FALSE
