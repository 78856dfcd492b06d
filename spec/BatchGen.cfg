SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
 L = 2
 K = 1
 Check = "each"
 Num = 1
 Den = 2
 Errors = {0}
 Emit = TRUE
INVARIANTS Complete Sound
