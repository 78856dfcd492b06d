SPECIFICATION Spec
CONSTANTS
  Kind = "before"
  Cheater = 1
INVARIANTS Late
CHECK_DEADLOCK TRUE
