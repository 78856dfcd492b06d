SPECIFICATION Spec
CONSTANTS
 M = 4
 Variant = "small"
PROPERTY Private
CHECK_DEADLOCK FALSE
