SPECIFICATION Spec
CONSTANTS
  Kind = "sync"
  Cheater = 1
INVARIANTS Late
CHECK_DEADLOCK TRUE
