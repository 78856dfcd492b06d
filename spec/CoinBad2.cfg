SPECIFICATION Spec
CONSTANTS
  Kind = "prev"
  Cheater = 1
INVARIANTS Late
CHECK_DEADLOCK TRUE
