SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
 L = 4
 K = 2
 Check = "each"
 Num = 1
 Den = 8
 Errors = {0, 1, 2, 3, 5, 8, 15}
 Emit = FALSE
INVARIANTS Complete Sound
