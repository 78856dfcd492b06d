SPECIFICATION Spec
CONSTANTS
  Messages = 10
  Cap = 8
  Window = 3
  Graceful = TRUE
  Writers = 2
  Full = "wait"
INVARIANTS Intact
CHECK_DEADLOCK TRUE
