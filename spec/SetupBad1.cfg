SPECIFICATION Spec
CONSTANTS
  Wait = FALSE
  Check = TRUE
  Vals = {"a", "b"}
INVARIANTS Fixed Bound Agree Live
CHECK_DEADLOCK FALSE
