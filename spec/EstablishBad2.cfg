SPECIFICATION Spec
CONSTANTS
  N = 3
  Sets = 2
  Label = "received"
  Order = "any"
  Lists = "two"
INVARIANTS Right Complete Clean
CHECK_DEADLOCK TRUE
