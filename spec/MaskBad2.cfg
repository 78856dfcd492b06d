SPECIFICATION Spec
CONSTANTS
 M = 4
 Variant = "twice"
PROPERTY Private
CHECK_DEADLOCK FALSE
