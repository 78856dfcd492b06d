SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
 L = 3
 K = 1
 Check = "mac"
 Num = 3
 Den = 8
 Errors = {0, 1, 2, 4, 7}
 Emit = FALSE
INVARIANTS Complete Sound
