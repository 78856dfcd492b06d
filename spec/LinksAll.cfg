SPECIFICATION Spec
CONSTANTS
  Cap = 8
  All = TRUE
PROPERTY Persistent
CHECK_DEADLOCK TRUE
