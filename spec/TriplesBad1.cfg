SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Word = 2
 Min = 3
 Sizes = {1, 2, 3, 7}
 MaxStock = 14
 MaxOps = 2
 Depth = 0
 CountPending = FALSE
 Drain = TRUE
INVARIANTS NeverShort UsedOnce Enough
