SPECIFICATION Spec
CONSTANTS
 M = 4
 Variant = "none"
PROPERTY Private
CHECK_DEADLOCK FALSE
