SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxDb = 6
 MaxChunk = 7
 Word = 2
 Emit = FALSE
INVARIANTS Right NoShortBit InPlace
PROPERTY Ends
