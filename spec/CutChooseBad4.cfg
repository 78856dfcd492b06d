SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Words = 2
 W = 2
 Perm1 = "all"
 Perm2 = "all"
 Open = "never"
 Num = 1
 Den = 15
 Emit = FALSE
INVARIANTS Complete Sound
