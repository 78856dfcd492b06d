SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Words = 2
 W = 2
 Perm1 = "words"
 Perm2 = "words"
 Open = "after"
 Num = 1
 Den = 15
 Emit = FALSE
INVARIANTS Complete Sound
