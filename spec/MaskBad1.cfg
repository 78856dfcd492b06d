SPECIFICATION Spec
CONSTANTS
 M = 4
 Variant = "known"
PROPERTY Private
CHECK_DEADLOCK FALSE
