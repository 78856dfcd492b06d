SPECIFICATION Spec
CONSTANTS
  Wait = TRUE
  Check = TRUE
  Vals = {"a", "b"}
INVARIANTS Fixed Bound Agree Live
CHECK_DEADLOCK FALSE
