SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS M = 4
 Bad = 0
 Rule = "all"
INVARIANTS Sound Complete
