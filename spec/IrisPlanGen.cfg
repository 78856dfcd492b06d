SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxDb = 4
 MaxChunk = 5
 Word = 2
 Emit = TRUE
INVARIANTS Right NoShortBit InPlace
PROPERTY Ends
