SPECIFICATION Spec
CONSTANTS
  Kind = "common"
  Cheater = 1
INVARIANTS Late
CHECK_DEADLOCK TRUE
