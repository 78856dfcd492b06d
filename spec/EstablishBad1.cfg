SPECIFICATION Spec
CONSTANTS
  N = 3
  Sets = 2
  Label = "list"
  Order = "asc"
  Lists = "all"
INVARIANTS Right Complete Clean
CHECK_DEADLOCK TRUE
