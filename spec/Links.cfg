SPECIFICATION Spec
CONSTANTS
  Cap = 8
  All = FALSE
CHECK_DEADLOCK TRUE
