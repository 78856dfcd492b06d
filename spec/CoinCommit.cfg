SPECIFICATION Spec
CONSTANTS
  Kind = "commit"
  Cheater = 1
INVARIANTS Late
CHECK_DEADLOCK TRUE
