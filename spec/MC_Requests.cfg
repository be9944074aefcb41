SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Arrays = {1, 2}
  Values = {1, 2, 3}
  Questions = {1, 2}
  MaxLen = 5
  Memory = "value"
  Gen = FALSE
INVARIANTS Right Kept
