SPECIFICATION Spec
CONSTANTS
  N = 4
  Sets = 2
  Label = "received"
  Order = "asc"
  Lists = "two"
INVARIANTS Right Complete Clean
CHECK_DEADLOCK TRUE
