SPECIFICATION Spec
CONSTANTS Masses = {60, 90, 100, 110, 120, 160}
          Errors = {1, 2}
INVARIANTS OnlySuitable Minimal FirstWins AllSuitableSeen FailIffNone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
