SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
 L = 3
 K = 1
 Check = "betasame"
 Num = 1
 Den = 2
 Errors = {0, 1, 7}
 Emit = FALSE
INVARIANTS Complete Sound
