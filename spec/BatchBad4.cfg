SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
 L = 3
 K = 1
 Check = "macsame"
 Num = 3
 Den = 8
 Errors = {0, 1, 7}
 Emit = FALSE
INVARIANTS Complete Sound
