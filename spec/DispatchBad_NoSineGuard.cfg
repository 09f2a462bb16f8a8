SPECIFICATION Spec
CONSTANTS
  Thr = 2
  EpsM = 3
  HasLimit = TRUE
  Variant = "NoSineGuard"
INVARIANTS NoPole KeepsMixing Close LimitIsNear LabelIndependent Untouched
CHECK_DEADLOCK FALSE
