SPECIFICATION Spec
CONSTANTS
 M = 4
 Variant = "good"
PROPERTY Private
CHECK_DEADLOCK FALSE
