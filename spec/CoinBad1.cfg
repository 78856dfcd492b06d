SPECIFICATION Spec
CONSTANTS
  Kind = "bare"
  Cheater = 1
INVARIANTS Late
CHECK_DEADLOCK TRUE
