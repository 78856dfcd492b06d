SPECIFICATION Spec
CONSTANTS
  Wait = TRUE
  Check = FALSE
  Vals = {"a", "b"}
INVARIANTS Fixed Bound Agree Live
CHECK_DEADLOCK FALSE
